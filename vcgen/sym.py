"""Verification-condition generator over LLVM IR.

Forward symbolic execution with state merging at every join; loops are either
unrolled to exhaustion (an `unwind` obligation is generated if the limit is
reached) or cut at their head with an inductive invariant (see cut.py).  Every
load, store, library call and harness assertion yields obligations
  path-condition => goal
that are handed to the prover."""
import re
import time
import llir
from llir import size_of, offsets
from terms import *
from terms import _constleaf, _ctz, _kzlow
import mem
from mem import Cont, Ch, ZERO

ABITS = 40
HALF = 1 << (ABITS - 1)
MAXSZ = (1 << (ABITS - 2))


class Unsupported(Exception):
    pass


class Obj:
    __slots__ = ('id', 'base', 'size', 'name', 'kind', 'const', 'fn')

    def __repr__(self):
        return f'obj{self.id}:{self.name}'


class St:
    __slots__ = ('pc', 'mem', 'freed', 'exc', 'caught')

    def __init__(self):
        self.pc = ()
        self.mem = {}
        self.freed = {}
        self.exc = None
        self.caught = ()

    def copy(self):
        s = St()
        s.pc = self.pc
        s.mem = dict(self.mem)
        s.freed = dict(self.freed) if self.freed else {}
        s.exc = self.exc
        s.caught = self.caught
        return s


class Ob:
    __slots__ = ('kind', 'msg', 'loc', 'pc', 'goal', 'status', 'fn', 'model', 'time', 'by')

    def __init__(self, kind, msg, loc, pc, goal, fn):
        self.kind = kind
        self.msg = msg
        self.loc = loc
        self.pc = pc
        self.goal = goal
        self.status = None
        self.fn = fn
        self.model = None
        self.time = 0.0
        self.by = None

    def name(self):
        l = ''
        if self.loc:
            l = f' at {self.loc[0]}:{self.loc[1]} in {self.loc[2]}'
        return f'[{self.kind}] {self.msg}{l}'


class Frame:
    __slots__ = ('fn', 'rets', 'excs', 'allocas', 'depth', 'dname')


EXC_BASES = {
    '@_ZTISt13runtime_error': ['@_ZTISt9exception'],
    '@_ZTISt11logic_error': ['@_ZTISt9exception'],
    '@_ZTISt12out_of_range': ['@_ZTISt11logic_error'],
    '@_ZTISt12length_error': ['@_ZTISt11logic_error'],
    '@_ZTISt16invalid_argument': ['@_ZTISt11logic_error'],
    '@_ZTISt9bad_alloc': ['@_ZTISt9exception'],
    '@_ZTISt18bad_variant_access': ['@_ZTISt9exception'],
    '@_ZTISt19bad_optional_access': ['@_ZTISt9exception'],
    '@_ZTISt12system_error': ['@_ZTISt13runtime_error'],
    '@_ZTISt17bad_function_call': ['@_ZTISt9exception'],
}

EXTERN_THROW = {
    '_ZSt20__throw_length_errorPKc': '@_ZTISt12length_error',
    '_ZSt19__throw_logic_errorPKc': '@_ZTISt11logic_error',
    '_ZSt20__throw_out_of_rangePKc': '@_ZTISt12out_of_range',
    '_ZSt24__throw_out_of_range_fmtPKcz': '@_ZTISt12out_of_range',
    '_ZSt17__throw_bad_allocv': '@_ZTISt9bad_alloc',
    '_ZSt28__throw_bad_array_new_lengthv': '@_ZTISt9bad_alloc',
    '_ZSt24__throw_invalid_argumentPKc': '@_ZTISt16invalid_argument',
    '_ZSt25__throw_bad_function_callv': '@_ZTISt17bad_function_call',
}


class Engine:
    def __init__(self, module, opts=None):
        self.m = module
        self.o = dict(unroll=80, max_depth=40, check_backedge=3, branch_check=False, contracts={}, cut=False,
                      solver_ms=4000, fuel=1, cut_after=10, peel=0, ub=True, deadline=None, invs=(), nocut=(), opaque={})
        if opts:
            self.o.update(opts)
        self.objs = {}
        self.nobj = 0
        self.gaddr = {}
        self.gdone = set()
        self.obs = []
        self.inputs = []      # (name, bits, term)
        self.bufs = []        # (name, size term, array name)
        self.covers = {}
        self.fresh_n = 0
        self.nm_count = {}
        self.prov = {}        # var name -> objid list
        self.suppress = 0
        self.fnstats = {}
        self.trusted = set()
        self.base_mem = {}
        self.steps = 0
        self.depth = 0
        self.feas_calls = 0
        self.z = None
        self.cut_stats = []
        self.global_axioms = []
        self.curfn = None
        self.demangled = {}
        self.loc_stack = []
        self.callstack = []
        self.used_contracts = set()
        self.used_models = set()
        self.seen_blocks = set()
        self.ghosts = []
        self.split_seen = set()
        self.ghost_fuel = {}
        self.ghost_depth = 0
        self.ghost_floor = 0
        self.ghost_reads = set()
        self.watches = []
        self.spans = []

    # ------------------------------------------------------------ basics
    def fresh(self, name, w, rng=None):
        self.fresh_n += 1
        return var(f'{name}!{self.fresh_n}', w, rng)

    def new_obj(self, name, size, kind, const=False):
        self.nobj += 1
        o = Obj()
        o.id = self.nobj
        o.base = (self.nobj) << ABITS
        o.size = size
        o.name = name
        o.kind = kind
        o.const = const
        o.fn = None
        self.objs[o.id] = o
        return o

    def undef(self, t):
        k = t.k
        if k == 'int':
            return self.fresh('undef', 0 if t.w == 1 else t.w)
        if k in ('ptr', 'float', 'double'):
            return self.fresh('undef', t.w)
        if k == 'struct':
            return tuple(self.undef(f) for f in t.fields)
        if k in ('arr', 'vec'):
            return tuple(self.undef(t.el) for _ in range(t.n))
        return self.fresh('undef', t.w or 64)

    def zero(self, t):
        k = t.k
        if k == 'int':
            return False if t.w == 1 else 0
        if k == 'struct':
            return tuple(self.zero(f) for f in t.fields)
        if k in ('arr', 'vec'):
            return tuple(self.zero(t.el) for _ in range(t.n))
        return 0

    def global_addr(self, name):
        if name in self.gaddr:
            return self.gaddr[name]
        if name in self.m.aliases:
            v = self.m.aliases[name]
            a = self.const(v)
            self.gaddr[name] = a
            return a
        if name in self.m.funcs:
            o = self.new_obj(name, 1, 'func', True)
            o.fn = name
            self.gaddr[name] = o.base
            return o.base
        if name not in self.m.globals:
            raise Unsupported('unknown global ' + name)
        t, init, const, ext = self.m.globals[name]
        sz = size_of(t) if t.k != 'struct' or t.fields is not None else 8
        o = self.new_obj(name, sz, 'global', const)
        self.gaddr[name] = o.base
        if init is None:
            c = Cont({}, Ch('sym', f'g_{name}'))
        else:
            c = self.init_cont(t, init)
        self.base_mem[o.id] = c
        return o.base

    def init_cont(self, t, v):
        cells = {}
        holder = {'base': ZERO}

        def put(t, v, off):
            if v.k == 'zero' or v.k == 'undef':
                return
            if v.k == 'bytes':
                if t.n > 64:
                    if off == 0:
                        holder['base'] = Ch('bytes', v.v)
                        return
                for j, b in enumerate(v.v):
                    cells[off + j] = (1, b)
                return
            if v.k == 'agg':
                if t.k in ('arr', 'vec'):
                    es = size_of(t.el)
                    for j, e in enumerate(v.v):
                        put(t.el, e, off + j * es)
                else:
                    for e, fo, ft in zip(v.v, offsets(t), t.fields):
                        put(ft, e, off + fo)
                return
            x = self.const(v)
            if x is True or x is False:
                x = int(x)
            cells[off] = (size_of(t), x)
        put(t, v, 0)
        if holder['base'] is ZERO and len(cells) > 64 and all(is_c(x[1]) for x in cells.values()):
            b = bytearray(size_of(t))
            for o, (n, x) in cells.items():
                b[o:o + n] = x.to_bytes(n, 'little')
            return Cont({}, Ch('bytes', bytes(b)))
        return Cont(cells, holder['base'])

    def const(self, v):
        k = v.k
        if k == 'int':
            return bool(v.v) if v.t.k == 'int' and v.t.w == 1 else v.v
        if k == 'null':
            return 0
        if k == 'zero':
            return self.zero(v.t)
        if k == 'undef':
            return self.undef(v.t)
        if k == 'glob':
            return self.global_addr(v.v)
        if k == 'agg':
            return tuple(self.const(e) for e in v.v)
        if k == 'bytes':
            return tuple(v.v)
        if k == 'ce':
            x = v.v
            if x[0] == 'gep':
                return self.gep(x[1], [self.const(a) for a in x[2]], [a.t for a in x[2]])
            if x[0] in ('inttoptr', 'ptrtoint', 'bitcast'):
                return self.const(x[1])
            if x[0] in ('add', 'sub'):
                a, b = self.const(x[1]), self.const(x[2])
                return (add if x[0] == 'add' else sub)(a, b, v.t.w)
            if x[0] == 'trunc':
                return extract(self.const(x[1]), 0, v.t.w)
        raise Unsupported('const ' + repr(v))

    def val(self, v, env):
        k = v.k
        if k == 'reg':
            try:
                return env[v.v]
            except KeyError:
                raise Unsupported('undefined register ' + v.v)
        if k == 'int':
            return bool(v.v) if v.t.k == 'int' and v.t.w == 1 else v.v
        if k == 'agg':
            return tuple(self.val(e, env) for e in v.v)
        return self.const(v)

    def gep(self, t, args, tys):
        a = args[0]
        idx = args[1:]
        its = tys[1:]
        parts = [(a, 1)]
        cur = t
        for j, (i, it) in enumerate(zip(idx, its)):
            if it.w < 64:
                i = sext(i, it.w, 64) if not (is_c(i)) else sgn(i, it.w) & M(64)
            elif it.w > 64:
                i = extract(i, 0, 64)
            if j == 0:
                parts.append((i, size_of(cur)))
            elif cur.k == 'struct':
                parts.append((offsets(cur)[i], 1))
                cur = cur.fields[i]
            else:
                cur = cur.el
                parts.append((i, size_of(cur)))
        c = 0
        ps = []
        for x, k in parts:
            if is_c(x):
                c += x * k
            else:
                ps.append((x, k))
        if not ps:
            return c & M(64)
        if len(ps) == 1 and ps[0][1] == 1:
            return add(ps[0][0], c & M(64), 64)
        return lin_combine(64, ps + [(c & M(64), 1)])

    # ------------------------------------------------------------ obligations
    def ob(self, kind, msg, st, goal, dbg=None):
        if self.suppress:
            return
        loc = self.m.loc(dbg) if dbg else None
        fn = self.curfn
        s = self.fnstats.setdefault(fn, [0, 0])
        s[0] += 1
        if goal is True:
            s[1] += 1
            o = Ob(kind, msg, loc, None, True, fn)
            o.status = 'proved'
            o.by = 'rewriting'
            self.obs.append(o)
            return
        if goal is not False and any(c is goal for c in st.pc):
            s[1] += 1
            o = Ob(kind, msg, loc, None, True, fn)
            o.status = 'proved'
            o.by = 'rewriting'
            self.obs.append(o)
            return
        self.obs.append(Ob(kind, msg, loc, st.pc, goal, fn))

    def assume(self, st, c):
        """returns st or None if dead"""
        if c is True:
            return st
        if c is False:
            return None
        if isinstance(c, Node) and c.op == 'land':
            parts = c.args
        else:
            parts = (c,)
        for p in parts:
            np_ = lnot(p)
            for q in st.pc:
                if q is p:
                    break
                if q is np_:
                    return None
            else:
                st.pc = st.pc + (p,)
        return st

    def known(self, st, c):
        if c is True or c is False:
            return c
        n = lnot(c)
        for q in st.pc:
            if q is c:
                return True
            if q is n:
                return False
        return None

    def feasible(self, st):
        import solve
        if self.z is None:
            self.z = solve.Feas(self)
        self.feas_calls += 1
        return self.z.check(st.pc)

    # ------------------------------------------------------------ memory
    def is_ptrlike(self, t):
        """could this addend carry an object base?"""
        if is_c(t):
            return t >= HALF
        return t.umax >= HALF

    def resolve(self, addr, depth=0, known=None):
        """-> list of (cond, objid, off)"""
        if is_c(addr):
            oid = (addr + HALF) >> ABITS
            return [(True, oid, (addr - (oid << ABITS)) & M(64))]
        if addr.op == 'ite':
            c = addr.args[0]
            out = []
            kv = (known or {}).get(c.id)
            for cc, x, v in ((c, addr.args[1], True), (lnot(c), addr.args[2], False)):
                if kv is not None and kv is not v:
                    continue
                k2 = dict(known or {})
                k2[c.id] = v
                for c2, o, f in self.resolve(x, depth + 1, k2):
                    z = land(cc, c2)
                    if z is not False:
                        out.append((z, o, f))
            # merge same object+offset
            mm = {}
            res = []
            for z, o, f in out:
                key = (o, nid(f))
                if key in mm:
                    i = mm[key]
                    res[i] = (lor(res[i][0], z), o, f)
                else:
                    mm[key] = len(res)
                    res.append((z, o, f))
            if len(res) > 200:
                raise Unsupported('too many pointer targets')
            return res
        if addr.op == 'var':
            p = self.prov.get(addr.p[0])
            if p is not None:
                if len(p) == 1:
                    return [(True, p[0], sub(addr, p[0] << ABITS, 64))]
                out = []
                for oid in p:
                    off = sub(addr, oid << ABITS, 64)
                    out.append((ult(off, HALF, 64), oid, off))
                return out
            if depth and addr.umax < HALF:
                return [(True, 0, addr)]     # null plus an offset, on one side of a case distinction
            raise Unsupported('pointer without provenance: ' + repr(addr.p))
        if addr.op == 'sum':
            c = addr.p[0]
            # expand pointer-valued ite addends
            for t, k in zip(addr.args, addr.p[1]):
                if t.op == 'ite' and self.has_ptr_leaf(t) or (t.op == 'ite' and _constleaf(t, 4) and k == 1 and self.objaddr(c) is None):
                    rest = lin_combine(64, ((addr, 1), (t, M(64) & -k)))
                    cc = t.args[0]
                    out = []
                    kv = (known or {}).get(cc.id)
                    for z, x, v in ((cc, t.args[1], True), (lnot(cc), t.args[2], False)):
                        if kv is not None and kv is not v:
                            continue
                        k2 = dict(known or {})
                        k2[cc.id] = v
                        a2 = lin_combine(64, ((rest, 1), (x, k)))
                        for c2, o, f in self.resolve(a2, depth + 1, k2):
                            zz = land(z, c2)
                            if zz is not False:
                                out.append((zz, o, f))
                    if len(out) > 200:
                        raise Unsupported('too many pointer targets')
                    return out
            oid = self.objaddr(c)
            if oid is not None:
                return [(True, oid, sub(addr, oid << ABITS, 64))]
            # variable pointers
            for t, k in zip(addr.args, addr.p[1]):
                if t.op == 'var' and t.p[0] in self.prov and k == 1:
                    out = []
                    pl = self.prov[t.p[0]]
                    for oid in pl:
                        off = sub(addr, oid << ABITS, 64)
                        out.append((True if len(pl) == 1 else ult(sub(t, oid << ABITS, 64), HALF, 64), oid, off))
                    return out
            # last resort: case split on any conditional addend (a pointer difference, say)
            for t, k in zip(addr.args, addr.p[1]):
                if t.op == 'ite' and depth < 40:
                    rest = lin_combine(64, ((addr, 1), (t, M(64) & -k)))
                    cc = t.args[0]
                    out = []
                    kv = (known or {}).get(cc.id)
                    for z, x, v in ((cc, t.args[1], True), (lnot(cc), t.args[2], False)):
                        if kv is not None and kv is not v:
                            continue
                        k2 = dict(known or {})
                        k2[cc.id] = v
                        for c2, o, f in self.resolve(lin_combine(64, ((rest, 1), (x, k))), depth + 1, k2):
                            zz = land(z, c2)
                            if zz is not False:
                                out.append((zz, o, f))
                    if len(out) > 200:
                        raise Unsupported('too many pointer targets')
                    return out
        if depth:
            # one side of a case distinction is no pointer (null plus an offset, uninitialised memory):
            # object 0 admits no access, so this side must be shown impossible
            return [(True, 0, addr)]
        raise Unsupported('cannot resolve pointer ' + self.show(addr))

    def show(self, t, d=3):
        if is_c(t):
            return hex(t) if isinstance(t, int) and not isinstance(t, bool) else str(t)
        if d == 0 or not t.args:
            return f'{t.op}{t.p if t.p else ""}'
        return f'{t.op}{t.p if t.op in ("sum", "extract") else ""}(' + ','.join(self.show(a, d - 1) for a in t.args) + ')'

    def objaddr(self, c):
        oid = (c + HALF) >> ABITS
        if 0 < oid <= self.nobj:
            return oid
        return None

    def has_ptr_leaf(self, t):
        seen = set()
        st = [t]
        while st:
            x = st.pop()
            if is_c(x):
                if HALF <= x < (self.nobj + 2) << ABITS:
                    return True
                continue
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op == 'ite':
                st.append(x.args[1])
                st.append(x.args[2])
            elif x.op == 'sum':
                if HALF <= x.p[0] < (self.nobj + 2) << ABITS:
                    return True
            elif x.op == 'var' and x.p[0] in self.prov:
                return True
        return False

    def targets(self, st, addr, n, what, dbg, wr=False):
        """in-bounds obligations; returns list of (cond, obj, off)"""
        if is_c(n) and n == 0:
            return []
        try:
            ts = self.resolve(addr)
        except Unsupported as e:
            # if this point is unreachable it does not matter
            if self.suppress or not self.feasible(st):
                return None
            raise
        out = []
        for c, oid, off in ts:
            if c is not True:
                kc = self.known(st, c)
                if kc is False:
                    continue
                if kc is True:
                    c = True
            o = self.objs.get(oid)
            bad = None
            if o is None or o.kind == 'func':
                bad = 'null or wild pointer' if o is None else 'function pointer used as data'
            elif oid not in st.mem and oid not in self.base_mem:
                bad = f'dangling pointer to {o.name}'
            elif wr and o.const:
                bad = f'write to constant {o.name}'
            if bad:
                g = lnot(c)
                if g is not True:
                    self.ob('memory', f'{what}: {bad}', st, g, dbg)
                continue
            # off + n <= size without wrap
            if is_c(n):
                if is_c(o.size):
                    g = ule(off, (o.size - n) & M(64), 64) if o.size >= n else False
                else:
                    g = land(ule(n, o.size, 64), ule(off, sub(o.size, n, 64), 64))
                    # prefer off < size for byte accesses
                    if n == 1:
                        g = ult(off, o.size, 64)
            else:
                g = land(ule(off, o.size, 64), ule(n, sub(o.size, off, 64), 64))
            if st.freed:
                f = st.freed.get(oid, False)
                if f is not False:
                    g = land(g, lnot(f))
            self.ob('memory', f'{what} within {o.name}', st, implies(c, g) if c is not True else g, dbg)
            if g is False:
                continue
            out.append((c, o, off))
        return out

    def cont(self, st, oid):
        c = st.mem.get(oid)
        if c is None:
            c = self.base_mem[oid]
        return c

    def load(self, st, addr, n, dbg=None, what='load'):
        ts = self.targets(st, addr, n, what, dbg)
        if not ts:
            return None
        if self.ghost_depth:
            for _, o, _ in ts:
                # specification functions may only read input that never changes
                if o.kind == 'buf':
                    o.const = True
                elif o.id <= self.ghost_floor and not o.const:
                    raise Unsupported('specification function reads mutable memory')
        v = mem.read(self.cont(st, ts[-1][1].id), ts[-1][2], n)
        for c, o, off in reversed(ts[:-1]):
            v = ite(c, mem.read(self.cont(st, o.id), off, n), v, 8 * n)
        return v

    def split_off(self, off):
        """expand an offset that is an ite over a few constants"""
        if isinstance(off, Node) and off.op == 'ite' and _constleaf(off, 4):
            res = {}

            def rec(x, c):
                if is_c(x):
                    res[x] = lor(res[x], c) if x in res else c
                else:
                    rec(x.args[1], land(c, x.args[0]))
                    rec(x.args[2], land(c, lnot(x.args[0])))
            rec(off, True)
            if len(res) <= 16:
                return [(c, k) for k, c in res.items() if c is not False]
        return [(True, off)]

    def store(self, st, addr, n, v, dbg=None, what='store'):
        ts = self.targets(st, addr, n, what, dbg, True)
        if not ts:
            return False
        for c, o, off in ts:
            old = self.cont(st, o.id)
            for c2, off2 in self.split_off(off):
                cc = land(c, c2)
                if cc is True:
                    old = mem.write(old, off2, n, v, o.size)
                elif cc is not False:
                    ov = mem.read(old, off2, n)
                    nv = ite(cc, v, ov, 8 * n)
                    old = mem.write(old, off2, n, nv, o.size)
            st.mem[o.id] = old
        return True

    def copy_mem(self, st, dst, src, n, dbg, what='memcpy'):
        if is_c(n) and n == 0:
            return True
        if is_c(n) and n <= 64:
            # value copy
            ss = self.targets(st, src, n, what + ' source', dbg)
            if not ss:
                return False
            if len(ss) == 1 and is_c(ss[0][2]):
                _, o, off = ss[0]
                c = self.cont(st, o.id)
                pieces = []
                pos = off
                while pos < off + n:
                    cell = c.cells.get(pos)
                    if cell is not None and pos + cell[0] <= off + n:
                        pieces.append((pos - off, cell[0], cell[1]))
                        pos += cell[0]
                    else:
                        # gap: up to next cell boundary / 8 bytes
                        e = pos + 1
                        while e < off + n and e not in c.cells and (e - off) % 8:
                            e += 1
                        pieces.append((pos - off, e - pos, mem.read(c, pos, e - pos)))
                        pos = e
            else:
                pieces = []
                pos = 0
                while pos < n:
                    k = min(8, n - pos) if len(ss) > 1 else 1
                    v = None
                    for c, o, off in reversed(ss):
                        x = mem.read(self.cont(st, o.id), add(off, pos, 64), k)
                        v = x if v is None else ite(c, x, v, 8 * k)
                    pieces.append((pos, k, v))
                    pos += k
            ds = self.targets(st, dst, n, what + ' destination', dbg, True)
            if not ds:
                return False
            for c, o, off in ds:
                for c2, off2 in self.split_off(off):
                    cc = land(c, c2)
                    if cc is False:
                        continue
                    old = self.cont(st, o.id)
                    if not is_c(off2) and len(pieces) > 1 and cc is True:
                        tmp = Cont({p: (k, v) for p, k, v in pieces}, ZERO)
                        st.mem[o.id] = Cont({}, Ch('C', old.flushed(), off2, n, tmp.flushed(), 0))
                        continue
                    for p, k, v in pieces:
                        a = add(off2, p, 64)
                        if cc is not True:
                            v = ite(cc, v, mem.read(old, a, k), 8 * k)
                        old = mem.write(old, a, k, v, o.size)
                    st.mem[o.id] = old
            return True
        # zero-length is always fine
        if not is_c(n):
            nz = ne(n, 0, 64)
            kn = self.known(st, nz)
            if kn is False:
                return True
        else:
            nz = True
        s2 = st
        ss = self.targets_n(st, src, n, nz, what + ' source', dbg, False)
        ds = self.targets_n(st, dst, n, nz, what + ' destination', dbg, True)
        if ss is None or ds is None:
            return False
        mx = umax(n)
        for c, o, off in ds:
            old = self.cont(st, o.id)
            new = None
            small = mx <= 40 and all(is_c(f) for _, _, f in ss) and is_c(off)
            if small:
                cur = old
                lim = mx
                if is_c(o.size):
                    lim = min(lim, o.size - off)
                for j in range(lim):
                    v = None
                    for sc, so, sf in reversed(ss):
                        if is_c(so.size) and sf + j >= so.size:
                            x = 0
                        else:
                            x = mem.read(self.cont(st, so.id), add(sf, j, 64), 1)
                        v = x if v is None else ite(sc, x, v, 8)
                    if v is None:
                        break
                    cc = land(c, ult(j, n, 64))
                    if cc is False:
                        continue
                    if cc is not True:
                        v = ite(cc, v, mem.read(cur, off + j, 1), 8)
                    cur = mem.write(cur, off + j, 1, v, o.size)
                new = cur
            else:
                base = old.flushed()
                for sc, so, sf in ss:
                    srcf = self.cont(st, so.id).flushed()
                    cc = land(c, sc)
                    b2 = Ch('C', old.flushed(), off, n, srcf, sf)
                    base = b2 if cc is True else Ch('I', cc, b2, base)
                new = Cont({}, base)
            st.mem[o.id] = new
        return True

    def targets_n(self, st, addr, n, nz, what, dbg, wr):
        """targets for a possibly zero-length access"""
        if nz is True:
            return self.targets(st, addr, n, what, dbg, wr)
        s2 = st.copy()
        s2 = self.assume(s2, nz)
        if s2 is None:
            return []
        ts = self.targets(s2, addr, n, what, dbg, wr)
        return ts if ts is not None else None

    # ------------------------------------------------------------ merging
    def merge_val(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, tuple):
            return tuple(self.merge_val(c, x, y) for x, y in zip(a, b))
        if isinstance(a, bool) or isinstance(b, bool):
            return bite(c, a, b)
        w = a.w if isinstance(a, Node) else (b.w if isinstance(b, Node) else 64)
        if w == 0:
            return bite(c, a, b)
        return ite(c, a, b, w)

    def merge_states(self, ls, live=None):
        """ls: list of (st, env) -> (st, env)"""
        if len(ls) == 1:
            st, env = ls[0]
            if live is not None:
                env = {k: v for k, v in env.items() if k in live}
            return st, env
        pcs = [s.pc for s, _ in ls]
        k = 0
        mn = min(len(p) for p in pcs)
        while k < mn and all(p[k] is pcs[0][k] for p in pcs):
            k += 1
        prefix = pcs[0][:k]
        # conjuncts common to all, beyond the ordered prefix
        common = None
        for p in pcs:
            ids = {c.id for c in p[k:]}
            common = ids if common is None else (common & ids)
        extra = []
        if common:
            for c in pcs[0][k:]:
                if c.id in common:
                    extra.append(c)
        res = [[c for c in p[k:] if not common or c.id not in common] for p in pcs]
        # strip literals already refuted by earlier single-literal residuals
        conds = []
        known = set()
        for r in res:
            rr = [c for c in r if c.id not in known]
            conds.append(land_all(rr))
            if len(rr) == 1:
                n = lnot(rr[0])
                if isinstance(n, Node):
                    known.add(n.id)
        full = [land_all(r) for r in res]
        tot = lor_all(full)
        if tot is not True and isinstance(tot, Node) and not any(c is True for c in full):
            pass
        st = St()
        st.pc = prefix + tuple(extra)
        if tot is not True:
            if isinstance(tot, Node) and tot.op == 'land':
                st.pc = st.pc + tuple(x for x in tot.args if all(x is not y for y in st.pc))
            else:
                st.pc = st.pc + (tot,)
        # memory
        mem0 = dict(ls[-1][0].mem)
        for i in range(len(ls) - 2, -1, -1):
            c = conds[i]
            m1 = ls[i][0].mem
            for oid, c1 in m1.items():
                c2 = mem0.get(oid)
                if c2 is None:
                    c2 = self.base_mem.get(oid)
                if c2 is None:
                    mem0[oid] = c1
                elif c1 is not c2:
                    mem0[oid] = mem.merge(c, c1, c2)
            for oid, c2 in list(mem0.items()):
                if oid not in m1 and oid in self.base_mem and c2 is not self.base_mem[oid]:
                    mem0[oid] = mem.merge(c, self.base_mem[oid], c2)
        st.mem = mem0
        fr = dict(ls[-1][0].freed)
        for i in range(len(ls) - 2, -1, -1):
            f1 = ls[i][0].freed
            if not f1 and not fr:
                continue
            for oid in set(f1) | set(fr):
                fr[oid] = bite(conds[i], f1.get(oid, False), fr.get(oid, False))
        st.freed = {k2: v for k2, v in fr.items() if v is not False}
        e = ls[-1][0].exc
        for i in range(len(ls) - 2, -1, -1):
            e2 = ls[i][0].exc
            if e is None:
                e = e2
            elif e2 is not None:
                e = self.merge_val(conds[i], e2, e)
        st.exc = e
        # stack of caught exceptions
        cg = [s.caught for s, _ in ls]
        if all(len(c) == len(cg[0]) for c in cg):
            c0 = cg[-1]
            for i in range(len(ls) - 2, -1, -1):
                if cg[i] is not c0:
                    c0 = tuple(self.merge_val(conds[i], a, b) for a, b in zip(cg[i], c0))
            st.caught = c0
        else:
            st.caught = min(cg, key=len)
        env = {}
        keys = ls[0][1].keys()
        for kx in keys:
            if live is not None and kx not in live:
                continue
            ok = True
            for _, ev in ls:
                if kx not in ev:
                    ok = False
                    break
            if not ok:
                continue
            v = ls[-1][1][kx]
            for i in range(len(ls) - 2, -1, -1):
                x = ls[i][1][kx]
                if x is not v and not (is_c(x) and is_c(v) and not isinstance(x, tuple) and x == v and type(x) is type(v)):
                    v = self.merge_val_t(conds[i], x, v, kx)
            env[kx] = v
        return st, env

    def merge_val_t(self, c, a, b, reg):
        if isinstance(a, tuple):
            return tuple(self.merge_val_t(c, x, y, reg) for x, y in zip(a, b))
        if isinstance(a, Node) or isinstance(b, Node) or isinstance(a, bool):
            return self.merge_val(c, a, b)
        # two integer constants: the register's width is needed
        w = self.regw(reg)
        return ite(c, a, b, w)

    def regw(self, reg):
        t = self.curtypes.get(reg)
        if t is None or t.k in ('struct', 'arr', 'vec'):
            return 64
        return t.w

    # ------------------------------------------------------------ functions
    def types_of(self, f):
        if not hasattr(f, 'rt'):
            rt = {}
            for t, pn, _ in f.params:
                rt[pn] = t
            for b in f.blocks.values():
                for ins in b.phis + b.ins:
                    if ins.res:
                        t = ins.t
                        if ins.op == 'icmp' or ins.op == 'fcmp':
                            t = llir.I(1)
                        elif ins.op == 'extractvalue':
                            for i in ins.x:
                                t = t.fields[i] if t.k == 'struct' else t.el
                        elif ins.op == 'alloca':
                            t = llir.PTR
                        elif ins.op == 'extractelement':
                            t = t.el
                        rt[ins.res] = t
            f.rt = rt
        return f.rt

    def run(self, name, args=()):
        st = St()
        r, x = self.exec_fn(self.m.funcs[name], list(args), st)
        return r, x

    def exec_fn(self, f, args, st):
        """-> ((st,val)|None, st_exc|None)"""
        self.m.ensure(f)
        an = llir.analyze(f)
        fr = Frame()
        fr.fn = f
        fr.rets = []
        fr.excs = []
        fr.allocas = []
        self.depth += 1
        if self.depth > self.o['max_depth']:
            self.depth -= 1
            raise Unsupported('recursion too deep in ' + f.name)
        saved = (self.curfn, getattr(self, 'curtypes', None))
        self.curfn = f.name
        self.curtypes = self.types_of(f)
        env = {}
        for (t, pn, at), a in zip(f.params, args):
            env[pn] = a
        try:
            self.exec_region(fr, an, None, [(None, st, env)])
        finally:
            self.depth -= 1
        ret = None
        if fr.rets:
            self.curtypes = {'$ret': f.ret}
            ret = self.merge_states([(s, {'$ret': v}) for s, v in fr.rets])
            ret = (ret[0], ret[1].get('$ret'))
        exc = None
        if fr.excs:
            exc = self.merge_states([(s, {}) for s in fr.excs])[0]
        self.curfn, self.curtypes = saved
        for s in (ret[0] if ret else None, exc):
            if s is not None:
                for oid in fr.allocas:
                    s.mem.pop(oid, None)
        return ret, exc

    def exec_region(self, fr, an, head, incoming):
        """execute the blocks of a region (function body or one loop iteration).
        incoming: [(src, st, env)] into the head. Returns (backedges, exits)."""
        f = fr.fn
        order = an['orders'][head]
        pending = {}
        first = head if head is not None else an['entry']
        pending[first] = [(s, st, env) for s, st, env in incoming]
        blocks_in = an['loops'][head].blocks if head is not None else None
        back = []
        exits = []

        def emit(src, dst, st, env):
            if head is not None and dst == head:
                back.append((src, st, env))
            elif blocks_in is not None and dst not in blocks_in:
                exits.append((src, dst, st, env))
            else:
                pending.setdefault(dst, []).append((src, st, env))
        for node in order:
            if isinstance(node, tuple):
                h = node[1]
                inc = pending.pop(h, None)
                if not inc:
                    continue
                for src, dst, st, env in self.exec_loop(fr, an, h, inc):
                    emit(src, dst, st, env)
            else:
                inc = pending.pop(node, None)
                if not inc:
                    continue
                if node == head:
                    st, env = inc[0][1], inc[0][2]
                    assert len(inc) == 1
                else:
                    st, env = self.enter(fr, an, node, inc)
                self.exec_block(fr, f.blocks[node], st, env, emit)
        if pending:
            left = {k: v for k, v in pending.items() if v}
            if left:
                raise Unsupported('region order: ' + repr(list(left)))
        return back, exits

    def enter(self, fr, an, node, inc):
        """evaluate phis per edge and merge"""
        b = fr.fn.blocks[node]
        ls = []
        for src, st, env in inc:
            if b.phis:
                vals = {}
                for p in b.phis:
                    for v, pb in p.x:
                        if pb == src:
                            vals[p.res] = self.val(v, env)
                            break
                env = dict(env)
                env.update(vals)
            ls.append((st, env))
        live = set(an['livein'][node])
        for p in b.phis:
            live.add(p.res)
        return self.merge_states(ls, live)

    def exec_loop(self, fr, an, h, inc):
        """returns list of exit edges (src,dst,st,env)"""
        st, env = self.enter(fr, an, h, inc)
        if self.o['cut'] == 'always':
            import cut
            return cut.cut_loop(self, fr, an, h, st, env)
        exits = []
        it = 0
        lim = self.o['unroll']
        mark = (len(self.obs), len(fr.rets), len(fr.excs))
        entry_copy = (st.copy(), dict(env))
        peeled = []
        nocut = False
        while True:
            back, ex = self.exec_region(fr, an, h, [(None, st, env)])
            exits.extend(ex)
            if not back:
                break
            st, env = self.enter(fr, an, h, back)
            it += 1
            if self.o['deadline'] and time.time() > self.o['deadline']:
                raise Unsupported('time limit during symbolic execution')
            if it >= self.o['check_backedge'] and not self.feasible(st):
                break
            if self.o['cut'] and it >= self.o['cut_after'] and not nocut:
                import cut
                rec = (self.obs[mark[0]:], fr.rets[mark[1]:], fr.excs[mark[2]:])
                del self.obs[mark[0]:]
                del fr.rets[mark[1]:]
                del fr.excs[mark[2]:]
                try:
                    out = cut.cut_loop(self, fr, an, h, entry_copy[0], entry_copy[1])
                    return cut.merge_exits(self, fr, an, peeled + out) if peeled else out
                except cut.CutFailed as ex:
                    self.cut_stats.append(f'{fr.fn.name}:{h}: not cut: {ex}')
                    del self.obs[mark[0]:]
                    del fr.rets[mark[1]:]
                    del fr.excs[mark[2]:]
                    self.obs += rec[0]
                    fr.rets += rec[1]
                    fr.excs += rec[2]
                    nocut = True
            if it <= self.o['peel']:
                # the invariant is sought after this many iterations
                mark = (len(self.obs), len(fr.rets), len(fr.excs))
                entry_copy = (st.copy(), dict(env))
                peeled = list(exits)
            if it >= lim:
                self.ob('unwind', f'loop bounded by {lim} iterations in {fr.fn.name}', st, False,
                        fr.fn.blocks[h].ins[0].dbg if fr.fn.blocks[h].ins else None)
                break
        # merge exits with the same (src,dst)
        g = {}
        for src, dst, s, e in exits:
            g.setdefault((src, dst), []).append((s, e))
        out = []
        for (src, dst), ls in g.items():
            live = set(an['livein'][dst])
            for p in fr.fn.blocks[dst].phis:
                for v, pb in p.x:
                    if pb == src and v.k == 'reg':
                        live.add(v.v)
            s, e = self.merge_states(ls, live)
            out.append((src, dst, s, e))
        return out

    # ------------------------------------------------------------ instructions
    def exec_block(self, fr, b, st, env, emit):
        env = dict(env)
        self.seen_blocks.add((fr.fn.name, b.name))
        for ins in b.ins:
            self.steps += 1
            op = ins.op
            h = getattr(self, 'i_' + op, None)
            if h is not None:
                env[ins.res] = h(ins, env)
                continue
            if op == 'load':
                p = self.val(ins.a[0], env)
                t = ins.t
                v = self.load_typed(st, p, t, ins.dbg)
                if v is None:
                    return
                env[ins.res] = v
            elif op == 'store':
                v = self.val(ins.a[0], env)
                p = self.val(ins.a[1], env)
                if not self.store_typed(st, p, ins.a[0].t, v, ins.dbg):
                    return
            elif op == 'alloca':
                n = size_of(ins.t)
                if ins.a:
                    k = self.val(ins.a[0], env)
                    if not is_c(k):
                        raise Unsupported('variable alloca')
                    n *= k
                o = self.new_obj(f'local {ins.res} of {self.short(fr.fn.name)}', n, 'stack')
                st.mem[o.id] = Cont({}, Ch('sym', f'stk{o.id}'))
                fr.allocas.append(o.id)
                env[ins.res] = o.base
            elif op == 'br':
                if not ins.a:
                    emit(b.name, ins.x[0], st, env)
                    return
                c = self.val(ins.a[0], env)
                kc = self.known(st, c)
                if kc is None and self.o['branch_check']:
                    s1 = self.assume(st.copy(), c)
                    if s1 is None or not self.feasible(s1):
                        kc = False
                    else:
                        s2 = self.assume(st.copy(), lnot(c))
                        if s2 is None or not self.feasible(s2):
                            kc = True
                if kc is True:
                    emit(b.name, ins.x[0], st, env)
                    return
                if kc is False:
                    emit(b.name, ins.x[1], st, env)
                    return
                if ins.x[0] == ins.x[1]:
                    emit(b.name, ins.x[0], st, env)
                    return
                s1 = self.assume(st.copy(), c)
                s2 = self.assume(st, lnot(c))
                if s1 is not None:
                    emit(b.name, ins.x[0], s1, env)
                if s2 is not None:
                    emit(b.name, ins.x[1], s2, dict(env))
                return
            elif op == 'switch':
                c = self.val(ins.a[0], env)
                d, cases = ins.x
                if is_c(c):
                    for v, dst in cases:
                        if v == (int(c)):
                            emit(b.name, dst, st, env)
                            return
                    emit(b.name, d, st, env)
                    return
                g = {}
                for v, dst in cases:
                    g.setdefault(dst, []).append(v)
                w = ins.t.w
                rest = []
                for dst, vs in g.items():
                    if w == 1:
                        cd = lor_all([c if v else lnot(c) for v in vs])
                    else:
                        cd = lor_all([eq(c, v, w) for v in vs])
                    rest.append(lnot(cd))
                    if dst == d:
                        continue
                    s1 = self.assume(st.copy(), cd)
                    if s1 is not None:
                        emit(b.name, dst, s1, dict(env))
                if d in g:
                    # default merged with explicit cases to the same block
                    neg_ = land_all([lnot(lor_all([eq(c, v, w) for v in vs])) for dst, vs in g.items() if dst != d])
                else:
                    neg_ = land_all(rest)
                s1 = self.assume(st, neg_)
                if s1 is not None:
                    emit(b.name, d, s1, env)
                return
            elif op == 'ret':
                v = self.val(ins.a[0], env) if ins.a else None
                fr.rets.append((st, v))
                return
            elif op == 'unreachable':
                self.ob('unreachable', 'control never reaches undefined point', st, False, ins.dbg)
                return
            elif op == 'resume':
                v = self.val(ins.a[0], env)
                # the in-flight exception continues
                st.exc = (v[0], st.exc[1]) if st.exc else (v[0], 0)
                if st.exc[1] == 0:
                    st.exc = (v[0], self.ti_of(v[0]))
                fr.excs.append(st)
                return
            elif op == 'landingpad':
                r = self.landingpad(fr, st, ins)
                if r is None:
                    return
                env[ins.res] = r
            elif op in ('call', 'invoke'):
                st = self.do_call(fr, b, st, env, ins, emit)
                if st is None:
                    return
                if op == 'invoke':
                    emit(b.name, ins.x['normal'], st, env)
                    return
            elif op == 'nop':
                pass
            elif op == 'atomicrmw':
                p = self.val(ins.a[0], env)
                v = self.val(ins.a[1], env)
                old = self.load_typed(st, p, ins.t, ins.dbg)
                if old is None:
                    return
                fns = {'add': add, 'sub': sub, 'and': band, 'or': bor, 'xor': bxor, 'xchg': lambda a, b, w: b}
                self.store_typed(st, p, ins.t, fns[ins.x](old, v, ins.t.w), ins.dbg)
                env[ins.res] = old
            else:
                raise Unsupported('instruction ' + op)
        raise Unsupported('block without terminator')

    def short(self, n):
        d = self.demangled.get(n)
        return d if d else n

    def load_typed(self, st, p, t, dbg):
        if t.k == 'struct':
            r = []
            for f, o in zip(t.fields, offsets(t)):
                v = self.load_typed(st, add(p, o, 64), f, dbg)
                if v is None:
                    return None
                r.append(v)
            return tuple(r)
        if t.k in ('arr', 'vec'):
            es = size_of(t.el)
            r = []
            for i in range(t.n):
                v = self.load_typed(st, add(p, i * es, 64), t.el, dbg)
                if v is None:
                    return None
                r.append(v)
            return tuple(r)
        n = (t.w + 7) // 8
        v = self.load(st, p, n, dbg)
        if v is None:
            return None
        if t.k == 'int' and t.w == 1:
            return ne(extract(v, 0, 1), 0, 1)
        if t.w != 8 * n:
            return extract(v, 0, t.w)
        return v

    def store_typed(self, st, p, t, v, dbg):
        if t.k == 'struct':
            for f, o, x in zip(t.fields, offsets(t), v):
                if not self.store_typed(st, add(p, o, 64), f, x, dbg):
                    return False
            return True
        if t.k in ('arr', 'vec'):
            es = size_of(t.el)
            for i in range(t.n):
                if not self.store_typed(st, add(p, i * es, 64), t.el, v[i], dbg):
                    return False
            return True
        n = (t.w + 7) // 8
        if t.k == 'int' and t.w == 1:
            v = b2v(v, 8)
        elif t.w != 8 * n:
            v = zext(v, t.w, 8 * n)
        return self.store(st, p, n, v, dbg)

    # arithmetic
    def _vecop(self, ins, env, f):
        a = self.val(ins.a[0], env)
        b = self.val(ins.a[1], env)
        t = ins.t
        if t.k == 'vec':
            return tuple(f(x, y, t.el.w) for x, y in zip(a, b))
        return f(a, b, t.w)

    def i_add(self, ins, env):
        if ins.t.k == 'int' and ins.t.w == 1:
            return lxor(self.val(ins.a[0], env), self.val(ins.a[1], env))
        return self._vecop(ins, env, add)

    def i_sub(self, ins, env):
        if ins.t.k == 'int' and ins.t.w == 1:
            return lxor(self.val(ins.a[0], env), self.val(ins.a[1], env))
        return self._vecop(ins, env, sub)

    def i_mul(self, ins, env):
        if ins.t.k == 'int' and ins.t.w == 1:
            return land(self.val(ins.a[0], env), self.val(ins.a[1], env))
        return self._vecop(ins, env, mul)

    def i_udiv(self, ins, env):
        return self._vecop(ins, env, udiv)

    def i_sdiv(self, ins, env):
        return self._vecop(ins, env, sdiv)

    def i_urem(self, ins, env):
        return self._vecop(ins, env, urem)

    def i_srem(self, ins, env):
        return self._vecop(ins, env, srem)

    def i_and(self, ins, env):
        if ins.t.k == 'int' and ins.t.w == 1:
            return land(self.val(ins.a[0], env), self.val(ins.a[1], env))
        if ins.t.k == 'vec' and ins.t.el.w == 1:
            return tuple(land(x, y) for x, y in zip(self.val(ins.a[0], env), self.val(ins.a[1], env)))
        return self._vecop(ins, env, band)

    def i_or(self, ins, env):
        if ins.t.k == 'int' and ins.t.w == 1:
            return lor(self.val(ins.a[0], env), self.val(ins.a[1], env))
        return self._vecop(ins, env, bor)

    def i_xor(self, ins, env):
        if ins.t.k == 'int' and ins.t.w == 1:
            return lxor(self.val(ins.a[0], env), self.val(ins.a[1], env))
        return self._vecop(ins, env, bxor)

    def i_shl(self, ins, env):
        return self._vecop(ins, env, shl)

    def i_lshr(self, ins, env):
        return self._vecop(ins, env, lshr)

    def i_ashr(self, ins, env):
        return self._vecop(ins, env, ashr)

    def i_getelementptr(self, ins, env):
        return self.gep(ins.x, [self.val(a, env) for a in ins.a], [a.t for a in ins.a])

    def i_trunc(self, ins, env):
        a = self.val(ins.a[0], env)
        if ins.t.k == 'vec':
            return tuple(extract(x, 0, ins.t.el.w) for x in a)
        if ins.t.w == 1:
            return ne(extract(a, 0, 1), 0, 1)
        return extract(a, 0, ins.t.w)

    def i_zext(self, ins, env):
        a = self.val(ins.a[0], env)
        ft = ins.a[0].t
        if ins.t.k == 'vec':
            return tuple(b2v(x, ins.t.el.w) if ft.el.w == 1 else zext(x, ft.el.w, ins.t.el.w) for x in a)
        if ft.w == 1:
            return b2v(a, ins.t.w)
        return zext(a, ft.w, ins.t.w)

    def i_sext(self, ins, env):
        a = self.val(ins.a[0], env)
        ft = ins.a[0].t
        if ins.t.k == 'vec':
            raise Unsupported('vector sext')
        if ft.w == 1:
            return ite(a, M(ins.t.w), 0, ins.t.w)
        return sext(a, ft.w, ins.t.w)

    def i_ptrtoint(self, ins, env):
        a = self.val(ins.a[0], env)
        if ins.t.w < 64:
            return extract(a, 0, ins.t.w)
        return zext(a, 64, ins.t.w)

    def i_inttoptr(self, ins, env):
        a = self.val(ins.a[0], env)
        w = ins.a[0].t.w
        return zext(a, w, 64) if w <= 64 else extract(a, 0, 64)

    def i_bitcast(self, ins, env):
        a = self.val(ins.a[0], env)
        ft, t = ins.a[0].t, ins.t
        if ft.k == 'vec' and t.k != 'vec':
            return concat(list(reversed(a)), [ft.el.w] * ft.n)
        if t.k == 'vec' and ft.k != 'vec':
            return tuple(extract(a, i * t.el.w, t.el.w) for i in range(t.n))
        if t.k == 'vec':
            x = concat(list(reversed(a)), [ft.el.w] * ft.n)
            return tuple(extract(x, i * t.el.w, t.el.w) for i in range(t.n))
        return a

    def cmp(self, p, a, b, w):
        if w == 1:
            if p == 'eq':
                return beq(a, b)
            if p == 'ne':
                return lxor(a, b)
            a, b, w = b2v(a, 8), b2v(b, 8), 8
            if p[0] == 's':
                a, b = b, a
        if p == 'eq':
            return self.peq(a, b, w)
        if p == 'ne':
            return lnot(self.peq(a, b, w))
        if p == 'ult':
            return ult(a, b, w)
        if p == 'ule':
            return ule(a, b, w)
        if p == 'ugt':
            return ult(b, a, w)
        if p == 'uge':
            return ule(b, a, w)
        if p == 'slt':
            return slt(a, b, w)
        if p == 'sle':
            return sle(a, b, w)
        if p == 'sgt':
            return slt(b, a, w)
        if p == 'sge':
            return sle(b, a, w)
        raise Unsupported(p)

    def peq(self, a, b, w):
        if w == 64:
            # pointer equality over ite leaves
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Node) and x.op == 'ite' and (is_c(y) or True) and self.has_ptr_leaf(x):
                    return bite(x.args[0], self.peq(x.args[1], y, w), self.peq(x.args[2], y, w))
        return eq(a, b, w)

    def i_icmp(self, ins, env):
        a = self.val(ins.a[0], env)
        b = self.val(ins.a[1], env)
        if ins.t.k == 'vec':
            return tuple(self.cmp(ins.x, x, y, ins.t.el.w) for x, y in zip(a, b))
        return self.cmp(ins.x, a, b, ins.t.w)

    def i_fcmp(self, ins, env):
        a = self.val(ins.a[0], env)
        b = self.val(ins.a[1], env)
        w = ins.t.w
        if ins.x == 'true':
            return True
        if ins.x == 'false':
            return False
        if w not in (32, 64):
            raise Unsupported('fcmp width')
        # expand comparisons into bit-vector form
        return fcmp_bits(ins.x, a, b, w)

    def i_fneg(self, ins, env):
        a = self.val(ins.a[0], env)
        return bxor(a, 1 << (ins.t.w - 1), ins.t.w)

    def fparith(self, ins, env):
        raise Unsupported('floating-point arithmetic ' + ins.op)

    i_fadd = i_fsub = i_fmul = i_fdiv = i_frem = fparith

    def i_fpconv(self, ins, env):
        a = [self.val(x, env) for x in ins.a]
        return uf(f'{ins.op}_{ins.a[0].t}_{ins.t}', [x for x in a], ins.t.w)

    i_fptoui = i_fptosi = i_uitofp = i_sitofp = i_fptrunc = i_fpext = i_fpconv

    def i_select(self, ins, env):
        c = self.val(ins.a[0], env)
        a = self.val(ins.a[1], env)
        b = self.val(ins.a[2], env)
        if isinstance(c, tuple):
            return tuple(ite(z, x, y, ins.t.el.w) for z, x, y in zip(c, a, b))
        if isinstance(a, tuple):
            return tuple(self.merge_val(c, x, y) for x, y in zip(a, b))
        if ins.t.k == 'int' and ins.t.w == 1:
            return bite(c, a, b)
        return ite(c, a, b, ins.t.w)

    def i_freeze(self, ins, env):
        return self.val(ins.a[0], env)

    def i_extractvalue(self, ins, env):
        a = self.val(ins.a[0], env)
        for i in ins.x:
            a = a[i]
        return a

    def i_insertvalue(self, ins, env):
        a = self.val(ins.a[0], env)
        v = self.val(ins.a[1], env)

        def rec(a, ix):
            if not ix:
                return v
            l = list(a)
            l[ix[0]] = rec(a[ix[0]], ix[1:])
            return tuple(l)
        return rec(a, ins.x)

    def i_extractelement(self, ins, env):
        a = self.val(ins.a[0], env)
        i = self.val(ins.a[1], env)
        if is_c(i):
            return a[i]
        raise Unsupported('extractelement')

    def i_insertelement(self, ins, env):
        a = list(self.val(ins.a[0], env))
        v = self.val(ins.a[1], env)
        i = self.val(ins.a[2], env)
        if not is_c(i):
            raise Unsupported('insertelement')
        a[i] = v
        return tuple(a)

    def i_shufflevector(self, ins, env):
        a = self.val(ins.a[0], env) + self.val(ins.a[1], env)
        mv = ins.a[2]
        if mv.k == 'zero':
            return tuple(a[0] for _ in range(mv.t.n))
        return tuple(a[e.v] if e.k == 'int' else a[0] for e in mv.v)

    # ------------------------------------------------------------ exceptions
    def ti_bases(self, name):
        """all ancestors of a type_info global (including itself)"""
        out = [name]
        i = 0
        while i < len(out):
            n = out[i]
            i += 1
            bs = EXC_BASES.get(n, [])
            g = self.m.globals.get(n)
            if g and g[1] is not None and g[1].k == 'agg':
                bs = bs + [e.v for e in g[1].v[2:] if e.k == 'glob' and e.v.startswith('@_ZTI')]
            for x in bs:
                if x not in out:
                    out.append(x)
        return out

    def ti_addr(self, name):
        if name in self.gaddr:
            return self.gaddr[name]
        if name in self.m.globals:
            return self.global_addr(name)
        o = self.new_obj(name, 16, 'global', True)
        self.gaddr[name] = o.base
        self.base_mem[o.id] = Cont({}, ZERO)
        return o.base

    def ti_matches(self, ti, target):
        """Bool: exception type `ti` (address term) is caught by a handler for global `target`"""
        tis = set(EXC_BASES) | {g for g in self.m.globals if g.startswith('@_ZTI')} | {g for g in self.gaddr if g.startswith('@_ZTI')}
        r = False
        for n in sorted(tis):
            if n in self.gaddr and target in self.ti_bases(n):
                r = lor(r, eq(ti, self.gaddr[n], 64))
        return r

    def ti_of(self, ptr):
        return self.fresh('ti', 64)

    def throw(self, st, tiname, ptr=None):
        if ptr is None:
            o = self.new_obj('exception', 64, 'heap')
            st.mem[o.id] = Cont({}, Ch('sym', f'exc{o.id}'))
            ptr = o.base
        ti = self.ti_addr(tiname) if isinstance(tiname, str) else tiname
        st.exc = (ptr, ti)
        return st

    def landingpad(self, fr, st, ins):
        ptr, ti = st.exc
        clauses = ins.x
        sel = None
        cleanup = any(c[0] == 'cleanup' for c in clauses)
        items = []
        anym = False
        for k, v in clauses:
            if k == 'catch':
                if v.k == 'null':
                    items.append((True, 0x7fff))
                    anym = True
                else:
                    mt = self.ti_matches(ti, v.v)
                    items.append((mt, self.ti_id(v.v)))
                    anym = lor(anym, mt)
            elif k == 'filter':
                raise Unsupported('filter clause')
        sel = 0
        for c, i in reversed(items):
            sel = ite(c, i, sel, 32)
        if not cleanup and anym is not True:
            # the exception bypasses this frame when no clause matches
            s2 = self.assume(st.copy(), lnot(anym))
            if s2 is not None:
                fr.excs.append(s2)
            if self.assume(st, anym) is None:
                return None
        return (ptr, sel)

    def ti_id(self, name):
        return (self.ti_addr(name) >> ABITS) & 0x3fff

    # ------------------------------------------------------------ calls
    def do_call(self, fr, b, st, env, ins, emit):
        """returns st for normal continuation or None"""
        fnv = ins.x['fn']
        args = []
        for a in ins.a:
            if a.k == 'meta':
                args.append(None)
            elif a.k == 'byval':
                src = self.val(a.v[0], env)
                n = size_of(a.v[1])
                o = self.new_obj('byval', n, 'stack')
                st.mem[o.id] = Cont({}, Ch('sym', f'stk{o.id}'))
                fr.allocas.append(o.id)
                if not self.copy_mem(st, o.base, src, n, ins.dbg):
                    return None
                args.append(o.base)
            else:
                args.append(self.val(a, env))
        if fnv.k == 'glob':
            targets = [(True, fnv.v)]
        else:
            p = self.val(fnv, env)
            targets = []
            for c, oid, off in self.resolve(p):
                o = self.objs.get(oid)
                if o is None or o.fn is None or off != 0:
                    self.ob('memory', 'call through an invalid function pointer', st, lnot(c), ins.dbg)
                    continue
                targets.append((c, o.fn))
        outs = []
        excs = []
        for c, name in targets:
            s = st
            if len(targets) > 1:
                s = self.assume(st.copy(), c)
                if s is None:
                    continue
            r, x = self.call(fr, name, args, ins, s)
            if r is not None:
                outs.append(r)
            if x is not None:
                excs.append(x)
        for x in excs:
            if ins.op == 'invoke':
                emit(b.name, ins.x['unwind'], x, dict(env))
            else:
                fr.excs.append(x)
        if not outs:
            return None
        if len(outs) == 1:
            s, v = outs[0]
        else:
            sv = self.curtypes
            self.curtypes = {'$r': ins.t}
            s, e = self.merge_states([(s, {'$r': v}) for s, v in outs])
            v = e.get('$r')
            self.curtypes = sv
        if ins.res:
            env[ins.res] = v
        return s

    def call(self, fr, name, args, ins, st):
        """-> ((st,val)|None, st_exc|None)"""
        n = name[1:]
        if n in self.m_aliases():
            n = self.m_aliases()[n]
        import models
        # contract replacement
        rep = self.contract_for(n)
        if rep is not None and self.callstack.count(rep) == 0:
            f = self.m.funcs['@' + rep]
            self.used_contracts.add((self.short(name), rep))
            self.callstack.append(rep)
            try:
                return self.exec_fn(f, args, st)
            finally:
                self.callstack.pop()
        if n.startswith('ghost_'):
            return ((st, self.ghost(n, args, st, self.o['fuel'], True)), None)
        h = models.lookup(n)
        if h is not None:
            self.used_models.add(n)
            return h(self, fr, n, args, ins, st)
        f = self.m.funcs.get('@' + n)
        if f is None or f.decl:
            raise Unsupported('external function ' + n)
        if f.vararg:
            raise Unsupported('vararg function ' + n)
        return self.exec_fn(f, args, st)

    # ------------------------------------------------------------ ghost specification functions
    def ghost(self, n, args, st, fuel, register=False):
        """application of a recursive specification function: an uninterpreted
        function with its defining equation unfolded `fuel` times at these arguments"""
        f = self.m.funcs['@' + n]
        self.m.ensure(f)
        ws = [t.w for t, _, _ in f.params]
        rw = f.ret.w
        pbase = 0
        if f.ret.k == 'ptr':
            # the result lies in the object of the first pointer argument
            i = [t.k for t, _, _ in f.params].index('ptr')
            ids = {o for c, o, _ in self.resolve(args[i])}
            if len(ids) != 1:
                raise Unsupported('specification function on several objects')
            pbase = ids.pop() << ABITS
        t = mk('uf', [zext(b2v(a, 1) if w == 0 or isbool(a) else a, max(w, 1), 64) if w < 64 else a for a, w in zip(args, ws)], 64,
               (n, (64,) * len(ws)))
        if register and not self.ghost_depth:
            if all(g[2] is not t for g in self.ghosts):
                self.ghosts.append((n, list(args), t))
        if fuel > self.ghost_fuel.get(t.id, 0):
            self.ghost_fuel[t.id] = fuel
            s2 = St()
            s2.mem = st.mem
            sv = self.o['fuel'], self.o['cut'], self.callstack
            self.o['fuel'] = fuel - 1
            self.o['cut'] = False
            self.suppress += 1
            self.ghost_depth += 1
            if self.ghost_depth == 1:
                self.ghost_floor = self.nobj
            try:
                r, x = self.exec_fn(f, args, s2.copy())
                if r is not None and x is None:
                    d = r[1]
                    if isinstance(d, bool) or (isinstance(d, Node) and d.w == 0):
                        d = b2v(d, 64)
                    elif rw < 64:
                        d = zext(d, rw, 64)
                    GHOST_DEFS[t.id] = sub(d, pbase, 64)
            except Unsupported:
                pass
            finally:
                self.suppress -= 1
                self.ghost_depth -= 1
                self.o['fuel'], self.o['cut'], self.callstack = sv
        if rw == 1:
            return ne(t, 0, 64)
        return extract(t, 0, rw) if rw < 64 else add(t, pbase, 64)

    def m_aliases(self):
        if not hasattr(self, '_al'):
            self._al = {}
            for k, v in self.m.aliases.items():
                if v.k == 'glob' and v.v in self.m.funcs:
                    self._al[k[1:]] = v.v[1:]
        return self._al

    def contract_for(self, n):
        cs = self.o['contracts']
        if not cs:
            return None
        d = self.demangled.get('@' + n, n)
        for pat, rep in cs.items():
            if re.search(pat, d) and '@' + rep in self.m.funcs and n != rep:
                return rep
        return None


def fcmp_bits(p, a, b, w):
    eb, mb = (8, 23) if w == 32 else (11, 52)
    em = M(eb) << mb

    def isnan(x):
        return land(eq(band(x, em, w), em, w), ne(band(x, M(mb), w), 0, w))

    def mag(x):
        return band(x, M(w - 1), w)

    def sign(x):
        return eq(extract(x, w - 1, 1), 1, 1)
    un = lor(isnan(a), isnan(b))
    bothz = land(eq(mag(a), 0, w), eq(mag(b), 0, w))
    feq = lor(bothz, eq(a, b, w))

    def flt(a, b):
        # ordered less-than, no NaN
        sa, sb = sign(a), sign(b)
        return land(lnot(bothz), bite(sa, bite(sb, ult(mag(b), mag(a), w), True), bite(sb, False, ult(mag(a), mag(b), w))))
    if p == 'ord':
        return lnot(un)
    if p == 'uno':
        return un
    q = p[1:]
    r = {'eq': lambda: feq, 'ne': lambda: lnot(feq), 'lt': lambda: flt(a, b), 'gt': lambda: flt(b, a),
         'le': lambda: lor(flt(a, b), feq), 'ge': lambda: lor(flt(b, a), feq)}[q]()
    return lor(un, r) if p[0] == 'u' else land(lnot(un), r)
