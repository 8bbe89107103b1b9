"""Assumed contracts on functions outside /repo: the C library, libstdc++'s
non-template parts, the C++ ABI and LLVM intrinsics; and the harness primitives."""
import re
from terms import *
import mem
from mem import Cont, Ch, ZERO
import sym
from sym import Unsupported, MAXSZ, EXTERN_THROW

T = {}
PAT = []
_cache = {}


def model(*names):
    def d(f):
        for n in names:
            T[n] = f
        return f
    return d


def pattern(p):
    def d(f):
        PAT.append((re.compile(p), f))
        return f
    return d


def lookup(n):
    if n in T:
        return T[n]
    if n in _cache:
        return _cache[n]
    r = None
    for p, f in PAT:
        if p.match(n):
            r = f
            break
    _cache[n] = r
    return r


def ok(st, v=None):
    return ((st, v), None)


# ---------------------------------------------------------------- harness primitives
def cstr(e, st, p):
    ts = e.resolve(p)
    c, oid, off = ts[0]
    cont = e.cont(st, oid)
    out = b''
    while len(out) < 500:
        b = mem.read(cont, off + len(out), 1)
        if not is_c(b) or b == 0:
            break
        out += bytes([b])
    return out.decode('latin1')


@model('__vp_nd')
def nd(e, fr, n, a, ins, st):
    name = cstr(e, st, a[0])
    k = e.nm_count.get(name, 0)
    e.nm_count[name] = k + 1
    nm = name if k == 0 else f'{name}#{k}'
    w = a[1]
    v = var('in.' + nm, w)
    e.inputs.append((nm, w, v))
    return ok(st, zext(v, w, 64))


@model('__vp_range')
def ndrange(e, fr, n, a, ins, st):
    name = cstr(e, st, a[0])
    k = e.nm_count.get(name, 0)
    e.nm_count[name] = k + 1
    nm = name if k == 0 else f'{name}#{k}'
    lo, hi = a[1], a[2]
    fix = e.o.get('fix') or {}
    if nm in fix:
        v = fix[nm]
        if not (is_c(lo) and is_c(hi)) or not lo <= v <= hi:
            return (None, None)
        e.inputs.append((nm, 64, v))
        e.split_seen.add((nm, lo, hi))
        return ok(st, v)
    if is_c(lo) and is_c(hi):
        v = var('in.' + nm, 64, (lo, hi))
    else:
        v = var('in.' + nm, 64)
        if e.assume(st, land(ule(lo, v, 64), ule(v, hi, 64))) is None:
            return (None, None)
    e.inputs.append((nm, 64, v))
    return ok(st, v)


@model('__vp_buf')
def buf(e, fr, n, a, ins, st):  # a = name, size, hint
    name = cstr(e, st, a[0])
    k = e.nm_count.get(name, 0)
    e.nm_count[name] = k + 1
    nm = name if k == 0 else f'{name}#{k}'
    o = e.new_obj('buffer ' + nm, a[1], 'buf')
    arr = 'buf.' + nm
    sz = a[1]
    if is_c(sz) and sz <= 64:
        cells = {}
        for i in range(sz):
            cells[i] = (1, select(arr, i))
        st.mem[o.id] = Cont(cells, Ch('sym', arr))
    else:
        st.mem[o.id] = Cont({}, Ch('sym', arr))
    e.bufs.append((nm, sz, arr))
    return ok(st, o.base)


@model('__vp_assume')
def vassume(e, fr, n, a, ins, st):
    st = e.assume(st, a[0])
    if st is None:
        return (None, None)
    return ok(st)


@model('__vp_assert')
def vassert(e, fr, n, a, ins, st):
    e.ob('assert', cstr(e, st, a[1]), st, a[0], ins.dbg)
    return ok(st)


@model('__vp_cover')
def vcover(e, fr, n, a, ins, st):
    nm = cstr(e, st, a[0])
    if not e.suppress:
        e.covers.setdefault(nm, []).append(st.pc)
    return ok(st)


@model('__vp_uf')
def vuf(e, fr, n, a, ins, st):
    name = cstr(e, st, a[0])
    return ok(st, uf(name, [a[1]], 64))


@model('__vp_watch')
def vwatch(e, fr, n, a, ins, st):
    e.watches.append((a[0], extract(a[1], 0, 8 * a[2]), a[2]))
    return ok(st)


@model('__vp_watch_in')
def vwatchin(e, fr, n, a, ins, st):
    c = a[1]
    e.spans.append((a[0], c if isbool(c) else ne(c, 0, c.w if isinstance(c, Node) else 8)))
    return ok(st)


@model('__vp_symbolic')
def vsymb(e, fr, n, a, ins, st):
    return ok(st, True)


# ---------------------------------------------------------------- memory
def do_new(e, ins, st, n):
    exc = None
    if not is_c(n):
        big = ult(MAXSZ, n, 64)
        if big is not False:
            s2 = e.assume(st.copy(), big)
            if s2 is not None:
                exc = e.throw(s2, '@_ZTISt9bad_alloc')
            if e.assume(st, lnot(big)) is None:
                return (None, exc)
        # the size term itself, with its range recorded through a fresh name
        if umax(n) > MAXSZ:
            v = e.fresh('sz', 64, (0, MAXSZ))
            if e.assume(st, eq(v, n, 64)) is None:
                return (None, exc)
    elif n > MAXSZ:
        return (None, e.throw(st, '@_ZTISt9bad_alloc'))
    o = e.new_obj('allocation', n, 'heap')
    st.mem[o.id] = Cont({}, Ch('sym', f'heap{o.id}'))
    return ((st, o.base), exc)


@model('_Znwm', '_Znam')
def opnew(e, fr, n, a, ins, st):
    return do_new(e, ins, st, a[0])


@model('malloc')
def malloc(e, fr, n, a, ins, st):
    r, x = do_new(e, ins, st, a[0])
    return (r, None)


@model('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'free')
def opdel(e, fr, n, a, ins, st):
    p = a[0]
    if is_c(p) and p == 0:
        return ok(st)
    for c, oid, off in e.resolve(p):
        if oid == 0:
            continue
        o = e.objs.get(oid)
        kc = e.known(st, c)
        if kc is False:
            continue
        if o is None or o.kind != 'heap':
            e.ob('memory', f'delete of non-heap {o.name if o else "pointer"}', st, lnot(c), ins.dbg)
            continue
        g = land(eq(off, 0, 64), lnot(st.freed.get(oid, False)))
        e.ob('memory', 'delete of a live allocation', st, implies(c, g), ins.dbg)
        st.freed = dict(st.freed)
        st.freed[oid] = lor(st.freed.get(oid, False), c)
    return ok(st)


@pattern(r'llvm\.memcpy\.|llvm\.memmove\.')
def memcpy_i(e, fr, n, a, ins, st):
    ln = a[2]
    if ins.a[2].t.w < 64:
        ln = zext(ln, ins.a[2].t.w, 64)
    if not e.copy_mem(st, a[0], a[1], ln, ins.dbg):
        return (None, None)
    return ok(st)


@model('memcpy', 'memmove')
def memcpy_f(e, fr, n, a, ins, st):
    if not e.copy_mem(st, a[0], a[1], a[2], ins.dbg):
        return (None, None)
    return ok(st, a[0])


def do_memset(e, st, dst, b, n, dbg):
    if is_c(n) and n == 0:
        return True
    nz = ne(n, 0, 64)
    if e.known(st, nz) is False:
        return True
    ts = e.targets_n(st, dst, n, True if is_c(n) else nz, 'memset', dbg, True)
    if ts is None:
        return False
    for c, o, off in ts:
        old = e.cont(st, o.id)
        if is_c(n) and is_c(off) and n <= 64:
            cur = old
            j = 0
            while j < n:
                k = 8 if (n - j >= 8 and (off + j) % 8 == 0) else 1
                v = concat([b] * k, [8] * k)
                if c is not True:
                    v = ite(c, v, mem.read(cur, off + j, k), 8 * k)
                cur = mem.write(cur, off + j, k, v, o.size)
                j += k
            st.mem[o.id] = cur
        elif is_c(off) and umax(n) <= 40:
            cur = old
            for j in range(umax(n)):
                if is_c(o.size) and off + j >= o.size:
                    break
                cc = land(c, ult(j, n, 64))
                if cc is False:
                    continue
                v = b if cc is True else ite(cc, b, mem.read(cur, off + j, 1), 8)
                cur = mem.write(cur, off + j, 1, v, o.size)
            st.mem[o.id] = cur
        else:
            nb = Ch('S', old.flushed(), off, n, b)
            st.mem[o.id] = Cont({}, nb if c is True else Ch('I', c, nb, old.flushed()))
    return True


@pattern(r'llvm\.memset\.')
def memset_i(e, fr, n, a, ins, st):
    ln = a[2]
    if ins.a[2].t.w < 64:
        ln = zext(ln, ins.a[2].t.w, 64)
    if not do_memset(e, st, a[0], a[1], ln, ins.dbg):
        return (None, None)
    return ok(st)


@model('memset')
def memset_f(e, fr, n, a, ins, st):
    if not do_memset(e, st, a[0], extract(a[1], 0, 8), a[2], ins.dbg):
        return (None, None)
    return ok(st, a[0])


def bytes_at(e, st, p, k, dbg, what, cond=True):
    """k bytes at p (only those actually within the object when cond restricts)"""
    out = []
    ts = e.resolve(p)
    for i in range(k):
        v = None
        for c, oid, off in reversed(ts):
            o = e.objs.get(oid)
            if o is None or o.kind == 'func':
                continue
            if oid not in st.mem and oid not in e.base_mem:
                continue
            x = mem.read(e.cont(st, oid), add(off, i, 64), 1)
            v = x if v is None else ite(c, x, v, 8)
        out.append(0 if v is None else v)
    return out


@model('memcmp', 'bcmp')
def memcmp(e, fr, n, a, ins, st):
    ln = a[2]
    if umax(ln) > 80:
        mx = bound_of(e, st, ln, 80)
        if mx is None:
            raise Unsupported('memcmp of unbounded length')
    else:
        mx = umax(ln)
    nz = ne(ln, 0, 64)
    if e.known(st, nz) is False:
        return ok(st, 0)
    if e.targets_n(st, a[0], ln, nz, 'memcmp', ins.dbg, False) is None:
        return (None, None)
    if e.targets_n(st, a[1], ln, nz, 'memcmp', ins.dbg, False) is None:
        return (None, None)
    x = bytes_at(e, st, a[0], mx, ins.dbg, 'memcmp')
    y = bytes_at(e, st, a[1], mx, ins.dbg, 'memcmp')
    r = 0
    for i in reversed(range(mx)):
        act = ult(i, ln, 64)
        if n == 'bcmp':
            d = b2v(ne(x[i], y[i], 8), 32)
        else:
            d = sub(zext(x[i], 8, 32), zext(y[i], 8, 32), 32)
        r = ite(land(act, ne(x[i], y[i], 8)), d, r, 32)
    return ok(st, r)


def bound_of(e, st, t, lim):
    """a concrete upper bound for t under the path condition, if <= lim"""
    s2 = e.assume(st.copy(), ult(lim, t, 64))
    if s2 is None or not e.feasible(s2):
        return lim
    return None


@model('strlen')
def strlen(e, fr, n, a, ins, st):
    ts = e.resolve(a[0])
    r = None
    for c, oid, off in reversed(ts):
        o = e.objs.get(oid)
        if o is None:
            e.ob('memory', 'strlen of null', st, lnot(c), ins.dbg)
            continue
        cont = e.cont(st, oid)
        if not is_c(o.size) or not is_c(off):
            raise Unsupported('strlen of unbounded string')
        bs = []
        k = off
        stop = False
        while k < o.size:
            b = mem.read(cont, k, 1)
            bs.append(b)
            k += 1
            if is_c(b) and b == 0:
                stop = True
                break
        if not stop:
            if len(bs) > 300:
                raise Unsupported('strlen of unbounded string')
            e.ob('memory', 'strlen: string is terminated within its object', st,
                 implies(c, lor_all([eq(b, 0, 8) for b in bs])), ins.dbg)
        v = len(bs)
        for i in reversed(range(len(bs))):
            v = ite(eq(bs[i], 0, 8), i, v, 64)
        r = v if r is None else ite(c, v, r, 64)
    if r is None:
        return (None, None)
    return ok(st, r)


@model('memchr')
def memchr(e, fr, n, a, ins, st):
    ln = a[2]
    mx = umax(ln)
    if mx > 80:
        raise Unsupported('memchr of unbounded length')
    if e.targets_n(st, a[0], ln, ne(ln, 0, 64), 'memchr', ins.dbg, False) is None:
        return (None, None)
    x = bytes_at(e, st, a[0], mx, ins.dbg, 'memchr')
    ch = extract(a[1], 0, 8)
    r = 0
    for i in reversed(range(mx)):
        r = ite(land(ult(i, ln, 64), eq(x[i], ch, 8)), add(a[0], i, 64), r, 64)
    return ok(st, r)


# ---------------------------------------------------------------- exceptions
def throw_extern(e, fr, n, a, ins, st):
    return (None, e.throw(st, EXTERN_THROW[n]))


for _n in EXTERN_THROW:
    T[_n] = throw_extern


@model('__cxa_allocate_exception')
def cxa_alloc(e, fr, n, a, ins, st):
    o = e.new_obj('exception object', a[0], 'heap')
    st.mem[o.id] = Cont({}, Ch('sym', f'exc{o.id}'))
    return ok(st, o.base)


@model('__cxa_free_exception')
def cxa_free(e, fr, n, a, ins, st):
    return ok(st)


@model('__cxa_throw')
def cxa_throw(e, fr, n, a, ins, st):
    st.exc = (a[0], a[1])
    return (None, st)


@model('__cxa_begin_catch')
def cxa_begin(e, fr, n, a, ins, st):
    st.caught = st.caught + (st.exc,)
    return ok(st, a[0])


@model('__cxa_end_catch')
def cxa_end(e, fr, n, a, ins, st):
    st.caught = st.caught[:-1]
    return ok(st)


@model('__cxa_rethrow')
def cxa_rethrow(e, fr, n, a, ins, st):
    st.exc = st.caught[-1]
    return (None, st)


@model('__clang_call_terminate', '_ZSt9terminatev', 'abort')
def terminate(e, fr, n, a, ins, st):
    e.ob('terminate', 'std::terminate is not reached', st, False, ins.dbg)
    return (None, None)


@pattern(r'_ZNK?St\d+(runtime_error|logic_error|exception|out_of_range|length_error|bad_alloc|invalid_argument|bad_variant_access|bad_optional_access)[CD]\d')
def exc_ctor(e, fr, n, a, ins, st):
    return ok(st)


@pattern(r'_ZNKSt\d+(runtime_error|logic_error|exception|bad_alloc)4whatEv')
def exc_what(e, fr, n, a, ins, st):
    o = e.new_obj('what() text', 32, 'global', True)
    cells = {i: (1, e.fresh('what', 8)) for i in range(31)}
    cells[31] = (1, 0)
    st.mem[o.id] = Cont(cells, ZERO)
    return ok(st, o.base)


@model('__cxa_guard_acquire')
def guard_acq(e, fr, n, a, ins, st):
    return ok(st, 1)


@model('__cxa_guard_release')
def guard_rel(e, fr, n, a, ins, st):
    e.store(st, a[0], 1, 1, ins.dbg)
    return ok(st)


@model('__cxa_guard_abort', '__cxa_atexit', '_ZNSt8ios_base4InitC1Ev', '_ZNSt8ios_base4InitD1Ev')
def noop(e, fr, n, a, ins, st):
    return ok(st, 0)


# ---------------------------------------------------------------- intrinsics
@model('llvm.assume')
def l_assume(e, fr, n, a, ins, st):
    # stated by the optimiser or by libstdc++'s __builtin_unreachable: not used as a hypothesis
    return ok(st)


@pattern(r'llvm\.(lifetime|invariant|donothing|sideeffect|prefetch|dbg|experimental\.noalias)')
def l_nop(e, fr, n, a, ins, st):
    return ok(st, 0)


@pattern(r'llvm\.(umin|umax|smin|smax)\.')
def l_minmax(e, fr, n, a, ins, st):
    w = ins.t.w
    k = n.split('.')[1]
    x, y = a[0], a[1]
    c = {'umin': ult, 'umax': lambda p, q, w: ult(q, p, w), 'smin': slt, 'smax': lambda p, q, w: slt(q, p, w)}[k](x, y, w)
    return ok(st, ite(c, x, y, w))


@pattern(r'llvm\.abs\.')
def l_abs(e, fr, n, a, ins, st):
    w = ins.t.w
    return ok(st, ite(slt(a[0], 0, w), sub(0, a[0], w), a[0], w))


@pattern(r'llvm\.(ctlz|cttz|ctpop)\.')
def l_bits(e, fr, n, a, ins, st):
    w = ins.t.w
    k = n.split('.')[1]
    x = a[0]
    if k == 'ctpop':
        r = 0
        for i in range(w):
            r = add(r, zext(extract(x, i, 1), 1, w), w)
        return ok(st, r)
    r = w
    rng = range(w) if k == 'ctlz' else reversed(range(w))
    for i in rng:
        v = (w - 1 - i) if k == 'ctlz' else i
        r = ite(eq(extract(x, i, 1), 1, 1), v, r, w)
    return ok(st, r)


@pattern(r'llvm\.bswap\.')
def l_bswap(e, fr, n, a, ins, st):
    w = ins.t.w
    return ok(st, concat([extract(a[0], 8 * i, 8) for i in range(w // 8)], [8] * (w // 8)))


@pattern(r'llvm\.fsh([lr])\.')
def l_fsh(e, fr, n, a, ins, st):
    w = ins.t.w
    x, y, s = a
    if not is_c(s):
        s = urem(s, w, w)
        if 'fshl' in n:
            r = bor(shl(x, s, w), lshr(lshr(y, 1, w), sub(w - 1, s, w), w), w)
        else:
            r = bor(lshr(y, s, w), shl(shl(x, 1, w), sub(w - 1, s, w), w), w)
        return ok(st, r)
    s %= w
    if 'fshr' in n:
        if s == 0:
            return ok(st, y)
        s = w - s
    elif s == 0:
        return ok(st, x)
    if x is y or (is_c(x) and is_c(y) and x == y):
        # rotate
        return ok(st, concat([extract(x, 0, w - s), extract(x, w - s, s)], [w - s, s]))
    return ok(st, bor(shl(x, s, w), lshr(y, w - s, w), w))


@pattern(r'llvm\.([us])(add|sub|mul)\.with\.overflow\.')
def l_ovf(e, fr, n, a, ins, st):
    m = re.match(r'llvm\.([us])(add|sub|mul)\.', n)
    s, o = m.groups()
    w = ins.t.fields[0].w
    x, y = a
    f = {'add': add, 'sub': sub, 'mul': mul}[o]
    r = f(x, y, w)
    if s == 'u' and o == 'add':
        ov = ult(r, x, w)
    elif s == 'u' and o == 'sub':
        ov = ult(x, y, w)
    else:
        W = 2 * w if o == 'mul' else w + 1
        ex = sext if s == 's' else zext
        R = f(ex(x, w, W), ex(y, w, W), W)
        ov = ne(R, ex(r, w, W), W)
    return ok(st, (r, ov))


@pattern(r'llvm\.([us])(add|sub)\.sat\.')
def l_sat(e, fr, n, a, ins, st):
    w = ins.t.w
    x, y = a
    if 'usub' in n:
        return ok(st, ite(ult(x, y, w), 0, sub(x, y, w), w))
    if 'uadd' in n:
        r = add(x, y, w)
        return ok(st, ite(ult(r, x, w), M(w), r, w))
    raise Unsupported(n)


@pattern(r'llvm\.eh\.typeid\.for')
def l_typeid(e, fr, n, a, ins, st):
    v = ins.a[0]
    return ok(st, e.ti_id(v.v))


@pattern(r'llvm\.(expect)\.')
def l_expect(e, fr, n, a, ins, st):
    return ok(st, a[0])


@pattern(r'llvm\.is\.constant')
def l_isconst(e, fr, n, a, ins, st):
    return ok(st, False)


@pattern(r'llvm\.objectsize')
def l_objsize(e, fr, n, a, ins, st):
    return ok(st, M(64))


@pattern(r'llvm\.stacksave')
def l_ss(e, fr, n, a, ins, st):
    return ok(st, 0)


@pattern(r'llvm\.stackrestore')
def l_sr(e, fr, n, a, ins, st):
    return ok(st)


@pattern(r'llvm\.(ubsantrap|trap|debugtrap)')
def l_trap(e, fr, n, a, ins, st):
    kinds = {0: 'add overflow', 1: 'builtin', 3: 'division', 7: 'implicit conversion', 10: 'alignment',
             12: 'mul overflow', 13: 'negation overflow', 16: 'null', 18: 'out of bounds', 19: 'pointer overflow',
             20: 'shift out of bounds', 21: 'sub overflow', 10: 'invalid value'}
    msg = kinds.get(a[0], str(a[0])) if a else 'trap'
    e.ob('undefined-behaviour', 'no ' + msg, st, False, ins.dbg)
    return (None, None)


@pattern(r'llvm\.(threadlocal)')
def l_tls(e, fr, n, a, ins, st):
    return ok(st, a[0])
