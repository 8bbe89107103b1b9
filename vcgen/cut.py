"""Loop cutting: replace an unbounded loop by an inductive invariant.

The state at the loop head is generalised: every register, memory cell or object
the body can change gets an arbitrary value, constrained only by an invariant.
The invariant is the largest inductive conjunction of a generated set of
candidates (Houdini); candidates come from
 - the entry value of each changed location (equal, monotone, strided),
 - the comparisons the loop and its body make, weakened,
 - linear relations between locations advancing by constants,
 - ghost specification functions: G(current) == G(initial) for every application
   G(initial) whose arguments agree with the entry values,
 - watched indices: the bytes below / above the current position of an object
   being written equal the specified / the original value.
Establishment and preservation of the surviving conjunction are emitted as
obligations like any other."""
import math
import time
from terms import *
import mem
from mem import Cont, Ch
import sym
from sym import Unsupported, HALF, ABITS

MAXC = 1500
import os
DBG = os.environ.get('VP_DBG')


class CutFailed(Exception):
    pass


class Loc:
    __slots__ = ('k', 'a', 'w', 'ptr', 'e', 'v', 'name')

    def __init__(self, k, a, w, e):
        self.k = k
        self.a = a
        self.w = w
        self.e = e
        self.v = None
        self.ptr = None
        self.name = ''


def width(eng, x, reg):
    if isbool(x):
        return 0
    if isinstance(x, Node):
        return x.w
    return eng.regw(reg)


def ptr_object(eng, st, x):
    """the object every value of pointer x lies in, or None"""
    if not eng.has_ptr_leaf(x):
        return None
    try:
        ts = eng.resolve(x)
    except Unsupported:
        return None
    ids = {o for c, o, f in ts if eng.known(st, c) is not False}
    if len(ids) == 1:
        o = ids.pop()
        if o in eng.objs and eng.objs[o].kind != 'func':
            return o
    return None


def cell_diff(ch, cb, size=None):
    """which part of an object changed: list of (off, n) or None for everything"""
    if ch is cb:
        return []
    if ch.base is not cb.base:
        if not isinstance(size, int) or not 0 < size <= 256:
            return None
        out, o = [], 0
        while o < size:
            n = max([c.cells[o][0] for c in (ch, cb) if o in c.cells], default=1)
            if not same(mem.read(ch, o, n), mem.read(cb, o, n)):
                out.append((o, n))
            o += n
        # changed bytes of one aligned word belong together
        words = {}
        for o, n in out:
            words.setdefault(o // 8, []).append((o, n))
        out = []
        for k in sorted(words):
            l = words[k]
            out += [(8 * k, 8)] if len(l) > 1 and 8 * k + 8 <= size else l
        return out
    offs = set(ch.cells) | set(cb.cells)
    out = []
    for o in sorted(offs):
        a, b = ch.cells.get(o), cb.cells.get(o)
        if a is not None and b is not None and a[0] == b[0]:
            if not same(a[1], b[1]) or (isbool(a[1]) != isbool(b[1])):
                out.append((o, a[0]))
            continue
        if a is None and b is not None:
            r = mem.read(ch, o, b[0])
            if not same(r, b[1]):
                out.append((o, b[0]))
            elif True:
                pass
            continue
        if b is None:
            r = mem.read(cb, o, a[0])
            if not same(r, a[1]):
                out.append((o, a[0]))
            continue
        out.append((o, max(a[0], b[0])))
    # overlapping pieces: widen
    res = []
    for o, n in out:
        if res and o < res[-1][0] + res[-1][1]:
            po, pn = res[-1]
            res[-1] = (po, max(pn, o + n - po))
        else:
            res.append((o, n))
    return res


def cut_loop(eng, fr, an, h, st0, env0):
    t0 = time.time()
    f = fr.fn
    if eng.ghost_depth:
        raise CutFailed('inside a specification function')
    phis = [p.res for p in f.blocks[h].phis]
    for p in phis:
        if isinstance(env0[p], tuple):
            raise CutFailed('aggregate loop variable')
    regs = {}
    for p in phis:
        l = Loc('reg', p, width(eng, env0[p], p), env0[p])
        l.name = p
        regs[p] = l
    cells = {}    # (oid, off, n) -> Loc
    whole = {}    # oid -> Loc
    eng.suppress += 1
    try:
        for rnd in range(8):
            locs = list(regs.values()) + list(cells.values()) + list(whole.values())
            st, env = header(eng, st0, env0, locs)
            m = (len(fr.rets), len(fr.excs))
            back, ex = eng.exec_region(fr, an, h, [(None, st.copy(), dict(env))])
            rets = fr.rets[m[0]:]
            excs = fr.excs[m[1]:]
            del fr.rets[m[0]:]
            del fr.excs[m[1]:]
            if not back:
                break
            sb, eb = eng.enter(fr, an, h, back)
            new = False
            for oid, cb in sb.mem.items():
                if oid not in st.mem and oid not in eng.base_mem:
                    continue
                if oid in whole:
                    continue
                ch = eng.cont(st, oid)
                d = cell_diff(ch, cb, eng.objs[oid].size if eng.o.get('small') else None)
                if d is None:
                    if eng.objs[oid].const:
                        continue
                    whole[oid] = Loc('all', oid, None, eng.cont(st0, oid))
                    whole[oid].name = eng.objs[oid].name
                    for k in [k for k in cells if k[0] == oid]:
                        del cells[k]
                    new = True
                else:
                    for off, n in d:
                        k = (oid, off, n)
                        if k in cells:
                            continue
                        for k2 in [k2 for k2 in cells if k2[0] == oid and k2[1] < off + n and off < k2[1] + k2[2]]:
                            lo = min(off, k2[1])
                            hi = max(off + n, k2[1] + k2[2])
                            off, n = lo, hi - lo
                            del cells[k2]
                        if n > 16:
                            for j in range(off, off + n, 8):
                                cells[(oid, j, min(8, off + n - j))] = mkcell(eng, st0, oid, j, min(8, off + n - j))
                        else:
                            cells[(oid, off, n)] = mkcell(eng, st0, oid, off, n)
                        new = True
            for oid in set(sb.freed) | set(st.freed):
                if oid in eng.objs and (oid in st.mem) and sb.freed.get(oid, False) is not st.freed.get(oid, False):
                    raise CutFailed('the loop frees or reallocates ' + eng.objs[oid].name)
            if not new:
                break
        else:
            raise CutFailed('modified memory does not stabilise')
        if not back:
            # the body never comes back: plain execution
            pass
        else:
            locs = list(regs.values()) + list(cells.values()) + list(whole.values())
            for l in locs:
                b = value(eng, sb, eb, l)
                if l.k != 'all' and l.w == 64 and l.ptr is None and isinstance(b, Node) and eng.has_ptr_leaf(b):
                    raise CutFailed(f'pointer {l.name} moves between objects')
                if l.ptr is not None:
                    o = ptr_object(eng, sb, b)
                    if o != l.ptr:
                        raise CutFailed(f'pointer {l.name} leaves its object')
    finally:
        eng.suppress -= 1
    if not back:
        eng.cut_stats.append(f'{f.name}:{h}: body does not repeat')
        b, ex = eng.exec_region(fr, an, h, [(None, st0, env0)])
        if b:
            raise CutFailed('body repeats after all')
        return merge_exits(eng, fr, an, ex)
    cands = candidates(eng, st0, locs, st, sb, eb, back, ex, rets, excs)
    ncand = len(cands)
    # establishment
    cands = houdini_filter(eng, st0.pc, [], [(c, inst(c, 'e', locs)) for c in cands], 2000)
    if DBG:
        print('CUT', f.name, h, 'established:', [c.name for c in cands])
    # preservation, re-executing the body under the surviving assumptions
    have = {c.name for c in cands}
    extra = 2
    for rnd in range(25):
        sh = st.copy()
        alive = []
        for c in cands:
            t = inst(c, 'v', locs)
            if t is True:
                continue
            if t is False:
                raise CutFailed('contradictory candidate')
            alive.append((c, t))
        for c, t in alive:
            if eng.assume(sh, t) is None:
                raise CutFailed('contradictory candidates')
        eng.suppress += 1
        sg = scoped_ghosts(eng, cands)
        try:
            m = (len(fr.rets), len(fr.excs))
            back, ex = eng.exec_region(fr, an, h, [(None, sh.copy(), dict(env))])
            del fr.rets[m[0]:]
            del fr.excs[m[1]:]
        finally:
            unscope(eng, sg)
            eng.suppress -= 1
        if not back:
            cands = [c for c, _ in alive]
            break
        sb, eb = eng.enter(fr, an, h, back)
        bv = {id(l): value(eng, sb, eb, l) for l in locs}
        pre = tuple(sb.pc)
        if DBG:
            print('back pc', [eng.show(p, 4) for p in pre[len(st.pc):]])
            for c, t in alive:
                print('  ', c.name, '|', eng.show(t, 6), '|', eng.show(c.inst(lambda l: bv[id(l)]), 6))
        keep = houdini_fix(eng, pre, alive, lambda c: c.inst(lambda l: bv[id(l)]), st)
        if len(keep) == len(alive):
            cands = [c for c, _ in alive]
            # what the surviving invariant makes constant may give further linear relations
            more = []
            if extra:
                extra -= 1
                linear(eng, [l for l in locs if l.k != 'all'], lambda l: bv[id(l)],
                       lambda nm, f: nm in have or more.append(Cand(nm, f)))
                more = houdini_filter(eng, st0.pc, [], [(c, inst(c, 'e', locs)) for c in more], 2000)
                have |= {c.name for c in more}
            if not more:
                break
            cands += more
            continue
        cands = [c for c, _ in keep]
    else:
        raise CutFailed('invariant inference does not converge')
    # final run with obligations
    sh = st.copy()
    ts = []
    for c in cands:
        t = inst(c, 'v', locs)
        ts.append(t)
        if eng.assume(sh, t) is None:
            raise CutFailed('contradictory invariant')
    loc = f.blocks[h].ins[0].dbg if f.blocks[h].ins else None
    fname = eng.short(f.name) if hasattr(eng, 'short') else f.name
    eng.ob('invariant', f'loop invariant holds on entry in {fname}', st0,
           land_all([inst(c, 'e', locs) for c in cands]), loc)
    sg = scoped_ghosts(eng, cands)
    try:
        back, ex = eng.exec_region(fr, an, h, [(None, sh, dict(env))])
    finally:
        unscope(eng, sg)
    if back:
        sb, eb = eng.enter(fr, an, h, back)
        bv = {id(l): value(eng, sb, eb, l) for l in locs}
        eng.ob('invariant', f'loop invariant is preserved in {fname}', sb,
               land_all([c.inst(lambda l: bv[id(l)]) for c in cands]), loc)
        for l in locs:
            if l.ptr is not None and ptr_object(eng, sb, bv[id(l)]) != l.ptr:
                raise CutFailed(f'pointer {l.name} leaves its object')
    eng.cut_stats.append(f'{f.name}:{h}: {len(cands)} of {ncand} candidates kept, {time.time()-t0:.1f}s: ' + '; '.join(c.name for c in cands)[:600])
    return merge_exits(eng, fr, an, ex)


def merge_exits(eng, fr, an, exits):
    g = {}
    for src, dst, s, e in exits:
        g.setdefault((src, dst), []).append((s, e))
    out = []
    for (src, dst), ls in g.items():
        live = set(an['livein'][dst])
        for p in fr.fn.blocks[dst].phis:
            for v, pb in p.x:
                if pb == src and v.k == 'reg':
                    live.add(v.v)
        s, e = eng.merge_states(ls, live)
        out.append((src, dst, s, e))
    return out


def mkcell(eng, st0, oid, off, n):
    l = Loc('cell', (oid, off, n), 8 * n, mem.read(eng.cont(st0, oid), off, n))
    l.name = f'{eng.objs[oid].name}+{off}'
    return l


def header(eng, st0, env0, locs):
    """arbitrary state at the loop head"""
    st = st0.copy()
    env = dict(env0)
    for l in locs:
        if l.k == 'all':
            if l.v is None:
                l.v = Cont({}, Ch('sym', f'loop{eng.fresh_n}'))
                eng.fresh_n += 1
            st.mem[l.a] = l.v
            continue
        if l.v is None:
            o = ptr_object(eng, st0, l.e) if l.w == 64 else None
            if o is not None:
                ov = eng.fresh('lp.' + l.name.strip('%'), 64)
                l.ptr = o
                l.v = add(ov, o << ABITS, 64)
            else:
                l.v = eng.fresh('lv.' + l.name.strip('%'), l.w)
        if l.k == 'reg':
            env[l.a] = l.v
        else:
            oid, off, n = l.a
            c = eng.cont(st, oid)
            st.mem[oid] = mem.write(c, off, n, l.v, eng.objs[oid].size)
    return st, env


def value(eng, st, env, l):
    if l.k == 'reg':
        return env[l.a]
    if l.k == 'all':
        return eng.cont(st, l.a)
    oid, off, n = l.a
    return mem.read(eng.cont(st, oid), off, n)


class Cand:
    __slots__ = ('inst', 'name', 'app')

    def __init__(self, name, f, app=None):
        self.name = name
        self.inst = f
        self.app = app


def scoped_ghosts(eng, cands):
    """the ghost applications of the assumed invariant, for the loops inside the body"""
    add = []
    for c in cands if eng.o.get('scoped') else ():
        if c.app is not None:
            n, args, t = c.app(lambda l: l.v)
            if isinstance(t, Node) and all(x[2] is not t for x in eng.ghosts + add):
                add.append((n, args, t))
    eng.ghosts.extend(add)
    return add


def unscope(eng, add):
    ids = {id(x) for x in add}
    eng.ghosts[:] = [x for x in eng.ghosts if id(x) not in ids]


def inst(c, which, locs):
    return c.inst((lambda l: l.e) if which == 'e' else (lambda l: l.v))


def depends(t, ids, memo):
    if not isinstance(t, Node):
        return False
    for n in reach_new([t], memo):
        memo[n.id] = n.id in ids or any(isinstance(a, Node) and memo[a.id] for a in n.args)
    return memo[t.id]


def atoms_of(c, out, seen):
    st = [c]
    while st:
        x = st.pop()
        if not isinstance(x, Node) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op in ('land', 'lor', 'not', 'bite'):
            st.extend(x.args)
        elif x.op in ('eq', 'ult', 'ule', 'slt', 'sle'):
            out.append(x)


def leaves(x, v, w, lim=64):
    """the non-zero constants the step x - v can be (at most three, small ones)"""
    out, seen, n = set(), set(), 0
    st = [(x, 0)]
    while st and n < 100:
        x, k = st.pop()
        n += 1
        d = sub(add(x, k, w), v, w)
        if is_c(d):
            if d and abs(sgn(d, w)) <= lim:
                out.add(d)
        elif is_c(x):
            pass
        elif x.op == 'ite':
            for y in x.args[1:]:
                if (nid(y), nid(k)) not in seen:
                    seen.add((nid(y), nid(k)))
                    st.append((y, k))
        elif x.op == 'sum':
            i = [i for i, t in enumerate(x.args) if t.op == 'ite' and x.p[1][i] == 1]
            if len(i) == 1:
                t = x.args[i[0]]
                st.append((t, add(k, sub(x, t, w), w)))
    return sorted(out) if len(out) <= 3 else []


def linear(eng, sc, val, cand):
    """relations between locations that advance by constants"""
    ds = []
    for l in sc:
        if l.w and l.w <= 64:
            for d in leaves(val(l), l.v, l.w, 1024 if eng.o.get('small') else 64):
                ds.append((l, sgn(d, l.w)))
    for i, (l, a0) in enumerate(ds):
        for m, b in ds[i + 1:]:
            a = a0
            if l is m:
                continue
            w = min(l.w, m.w)
            if eng.o.get('small'):
                k = math.gcd(a, b)
                a, b = a // k, b // k
            tr = lambda x, ww, w=w: extract(x, 0, w) if ww > w else x

            def rel(g, l=l, m=m, a=a, b=b, w=w, tr=tr):
                x = sub(tr(g(l), l.w), tr(l.e, l.w), w)
                y = sub(tr(g(m), m.w), tr(m.e, m.w), w)
                return eq(lin_combine(w, ((x, b & M(w)),)) if not is_c(x) else x * b & M(w),
                          lin_combine(w, ((y, a & M(w)),)) if not is_c(y) else y * a & M(w), w)
            cand(f'{l.name}~{m.name}' + (f' {a}:{b}' if (a, b) != (1, 1) else ''), rel)
    return ds


def candidates(eng, st0, locs, st, sb, eb, back, ex, rets, excs):
    cs = []
    sc = [l for l in locs if l.k != 'all']
    names = set()

    def cand(name, f, app=None):
        if name in names:
            return
        names.add(name)
        cs.append(Cand(name, f, app))
    ids = {}
    for l in sc:
        v = l.v
        if isinstance(v, Node):
            if v.op == 'sum':
                ids[v.args[0].id] = l
            else:
                ids[v.id] = l
    arrs = {l.v.base.a[0] for l in locs if l.k == 'all'}
    memo = {}
    dep = lambda t: depends(t, ids, memo)

    for l in sc:
        n = l.name
        if l.w == 0:
            cand(f'{n}==entry', lambda g, l=l: beq(g(l), l.e))
            cand(f'{n}', lambda g, l=l: g(l))
            cand(f'not {n}', lambda g, l=l: lnot(g(l)))
            continue
        w = l.w
        if w == 8 and eng.o.get('small'):
            cand(f'{n}==1', lambda g, l=l: eq(g(l), 1, 8))
        cand(f'{n}==entry', lambda g, l=l: eq(g(l), l.e, l.w))
        cand(f'{n}>=entry', lambda g, l=l: ule(l.e, g(l), l.w))
        cand(f'{n}<=entry', lambda g, l=l: ule(g(l), l.e, l.w))
        if l.ptr is None:
            cand(f'{n}>=s entry', lambda g, l=l: sle(l.e, g(l), l.w))
            cand(f'{n}<=s entry', lambda g, l=l: sle(g(l), l.e, l.w))
            for k in (7, 15, 31, 63, 255):
                if k < M(w):
                    cand(f'{n}<={k}', lambda g, l=l, k=k: ule(g(l), k, l.w))
        else:
            o = eng.objs[l.ptr]
            cand(f'{n} in object', lambda g, l=l, o=o: ule(sub(g(l), o.base, 64), o.size, 64))
        b = value(eng, sb, eb, l)
        d = sub(b, l.v, w)
        if is_c(d):
            tz = (d & -d).bit_length() - 1 if d else 0
            if tz:
                cand(f'{n} stride', lambda g, l=l, tz=tz: eq(band(sub(g(l), l.e, l.w), (1 << tz) - 1, l.w), 0, l.w))
    ds = linear(eng, sc, lambda l: value(eng, sb, eb, l), cand)
    # copies
    for i, l in enumerate(sc):
        for m in sc[i + 1:]:
            if l.w == m.w and l.w and same(l.e, m.e) and l.ptr == m.ptr:
                cand(f'{l.name}=={m.name}', lambda g, l=l, m=m: eq(g(l), g(m), l.w))
    # flags recording whether a location has moved
    flags = [l for l in sc if l.w == 0 or l.w == 8 and is_c(l.e) and l.e in (0, 1)]
    for l in flags:
        for m, _ in ds:
            if m is l or (l.w and not is_c(l.e)):
                continue
            tv = (lambda x: x) if l.w == 0 else (lambda x: ne(x, 0, 8))
            cand(f'{l.name} flips with {m.name}', lambda g, l=l, m=m, tv=tv:
                 beq(tv(g(l)), beq(eq(g(m), m.e, m.w), tv(l.e))))
            cand(f'{l.name} stays at {m.name}', lambda g, l=l, m=m, tv=tv:
                 implies(eq(g(m), m.e, m.w), beq(tv(g(l)), tv(l.e))))
    # atoms of the body
    ats = []
    seen = set()
    npre = len(st.pc)
    for s in [x[1] for x in back] + [x[2] for x in ex] + [x[0] for x in rets] + list(excs):
        for c in s.pc[npre:] if s.pc[:npre] == st.pc else s.pc:
            atoms_of(c, ats, seen)
    na = 0
    for a in ats:
        x, y = a.args
        if not dep(a) or na > 60:
            continue
        # atoms that also mention fresh values of the body cannot be instantiated
        if mentions_fresh(a, st, ids, eng):
            continue
        na += 1

        def mkc(nm, f):
            def g2(g, f=f):
                mp = {}
                for vid, l in ids.items():
                    val = g(l)
                    if l.v.op == 'sum':
                        val = sub(val, l.ptr << ABITS, 64)
                    mp[vid] = val
                return f(mp)
            cand(nm, g2)
        w = a.p
        for nm, f in (('ule', lambda p, q, w: ule(p, q, w)), ('uge', lambda p, q, w: ule(q, p, w)),
                      ('sle', lambda p, q, w: sle(p, q, w)), ('sge', lambda p, q, w: sle(q, p, w)),
                      ('eq', lambda p, q, w: eq(p, q, w)), ('ne', lambda p, q, w: ne(p, q, w))):
            mkc(f'{nm}#{a.id}', lambda mp, x=x, y=y, w=w, f=f: f(subst(x, mp), subst(y, mp), w))
    # bounds against the object end
    # ghost functions
    matches(eng, st0, sc, cand)
    # watched indices
    for wi, (j, val, nb) in enumerate(eng.watches):
        for l in [l for l in locs if l.k == 'all']:
            o = l.a
            for m in sc:
                if m.w != 64 and m.w != 32:
                    continue
                pos = (lambda g, m=m: sub(g(m), m.ptr << ABITS, 64)) if m.ptr is not None else \
                    (lambda g, m=m: zext(g(m), m.w, 64) if m.w < 64 else g(m))
                if m.ptr is not None and m.ptr != o:
                    pos = lambda g, m=m: sub(g(m), m.e, 64)
                cand(f'watch{wi} {l.name}<{m.name}', lambda g, l=l, j=j, val=val, nb=nb, pos=pos:
                     implies(ult(j, pos(g), 64), eq(mem.read(g(l), j, nb), val, 8 * nb)))
                cand(f'frame{wi} {l.name}>={m.name}', lambda g, l=l, j=j, nb=nb, pos=pos:
                     implies(ule(pos(g), j, 64), eq(mem.read(g(l), j, nb), mem.read(l.e, j, nb), 8 * nb)))
                cand(f'watchdown{wi} {l.name}>={m.name}', lambda g, l=l, j=j, val=val, nb=nb, pos=pos:
                     implies(ule(pos(g), j, 64), eq(mem.read(g(l), j, nb), val, 8 * nb)))
            cand(f'frame{wi} {l.name}', lambda g, l=l, j=j, nb=nb: eq(mem.read(g(l), j, nb), mem.read(l.e, j, nb), 8 * nb))
    # facts about scanned elements
    for wi, (q, fact) in enumerate(eng.spans):
        o = ptr_object(eng, st0, q)
        for m in sc:
            if m.w != 64 or m.ptr is not None and m.ptr != o or o is None:
                continue
            x = q if m.ptr is not None else sub(q, eng.objs[o].base, 64)
            cand(f'span{wi} {m.name}', lambda g, m=m, x=x, fact=fact:
                 implies(land(ule(m.e, x, 64), ult(x, g(m), 64)), fact))
    if len(cs) > MAXC:
        del cs[MAXC:]
    return cs


def uf_of(eng, n, args):
    r = eng.ghost(n, args, eng.cut_state, 0)
    for x in reach([r]) if isinstance(r, Node) else ():
        if x.op == 'uf' and x.p[0] == n:
            return x
    return None


def mentions_fresh(a, st, ids, eng):
    """does the atom mention variables created while executing the body?"""
    lim = max(ids) if ids else 0
    for n in reach([a]):
        if n.op in ('var', 'bvar') and n.id > lim and n.id not in ids:
            return True
        if n.op == 'sel' and n.p[0].startswith('loop'):
            return True
        if n.op == 'uf' and n.id > lim:
            return True
    return False


def matches(eng, st0, sc, cand):
    """ghost applications whose arguments equal entry values"""
    import solve
    if not eng.ghosts:
        return
    import itertools
    memo = {}

    def agree(a, l, off):
        if l.w == 0 or l.w > 64:
            return False
        aw = a.w if isinstance(a, Node) else l.w
        if isbool(a):
            return False
        e = l.e
        if isinstance(a, Node) and a.w != l.w:
            if l.w < a.w:
                e = zext(e, l.w, a.w)
            else:
                return False
        w = a.w if isinstance(a, Node) else l.w
        g = eq(a, add(e, off, w), w)
        if g is True or g is False:
            return g
        k = g.id
        if k not in memo:
            s2 = st0.copy()
            memo[k] = not (eng.assume(s2, lnot(g)) is not None and eng.feasible(s2))
        return memo[k]
    total = 0
    for gi, (n, args, t) in enumerate(eng.ghosts):
        f = eng.m.funcs['@' + n]
        ws = [ty.w for ty, _, _ in f.params]
        ch = []
        anyp = False
        for i, a in enumerate(args):
            c = [None]
            isp = f.params[i][0].k == 'ptr'
            for l in sc:
                if isp and l.ptr is None or not isp and l.ptr is not None:
                    continue
                if (ws[i] == 0 or ws[i] == 1) and l.w in (0, 1, 8):
                    if isinstance(a, (bool, int)):
                        continue
                    c.append((l, 0))
                    continue
                if l.w == 2 * ws[i] and not isp:
                    # half of a double-width location
                    for k in (0, 1):
                        h = extract(l.e, 64 * k, 64)
                        if a is h or not isinstance(h, Node) and not isinstance(a, Node) and a == h:
                            c.append((l, 'lh'[k]))
                    continue
                if l.w > ws[i]:
                    continue
                for off in ((0, 1, -1) if isp else (0,)):
                    if agree(a, l, off & M(64) if isp else 0):
                        c.append((l, off))
                        break
            ch.append(c)
        for combo in itertools.product(*ch):
            if all(c is None for c in combo):
                continue
            h = [(k, c[0]) for k, c in enumerate(combo) if c and c[1] == 'l']
            if [(k + 1, l) for k, l in h] != [(k, c[0]) for k, c in enumerate(combo) if c and c[1] == 'h']:
                continue
            total += 1
            if total > 600:
                return

            def app_(g, n=n, args=args, combo=combo, ws=ws):
                aa = []
                for a, c, w in zip(args, combo, ws):
                    if c is None:
                        aa.append(a)
                    else:
                        c, off = c
                        x = g(c)
                        if off in ('l', 'h'):
                            aa.append(extract(x, 64 * (off == 'h'), 64))
                            continue
                        if off:
                            x = add(x, off & M(64), 64)
                        if w in (0, 1):
                            if c.w == 0:
                                pass
                            else:
                                x = ne(x, 0, c.w) if c.w > 1 else eq(x, 1, 1)
                        elif c.w < w:
                            x = zext(x, c.w, w)
                        aa.append(x)
                return aa

            def mk_(g, n=n, args=args, app_=app_):
                aa = app_(g)
                r = eng.ghost(n, aa, eng.cut_state, eng.o['fuel'])
                g0 = eng.ghost(n, args, eng.cut_state, 0)
                return beq(r, g0) if isbool(r) else eq(r, g0, r.w if isinstance(r, Node) else 64)
            eng.cut_state = st0
            cand(f'{n}[{gi}](' + ','.join('=' if c is None else c[0].name + ('.' + c[1] if c[1] in ('l', 'h') else '%+d' % c[1] if c[1] else '') for c in combo) + ')', mk_,
                 lambda g, n=n, app_=app_: (n, app_(g), uf_of(eng, n, app_(g))))


# ---------------------------------------------------------------- filtering
class Q:
    def __init__(self, eng, ms, abstract=False):
        import z3
        self.z3 = z3
        self.eng = eng
        self.conv = Z3Conv(z3)
        self.conv.abstract = abstract
        self.s = z3.SolverFor('QF_AUFBV')
        # a resource limit, so that the outcome does not depend on the load of the machine
        self.s.set('rlimit', ms * 6000)
        self.s.set('timeout', ms * 10)
        self.nax = 0

    def add(self, t):
        z = self.conv.conv(t)
        self.flush()
        self.s.add(z)

    def flush(self):
        while self.nax < len(self.conv.axioms):
            self.s.add(self.conv.axioms[self.nax])
            self.nax += 1


def houdini_filter(eng, pc, hyp, items, ms):
    """items: (cand, goal). keep those implied by pc"""
    out = []
    todo = []
    for c, g in items:
        if g is True:
            out.append(c)
        elif g is False:
            continue
        else:
            todo.append((c, g))
    if not todo:
        return out
    keep = two_phase(eng, pc, [], todo, ms)
    return out + [c for c, g in keep]


HARD = ('udiv', 'urem', 'sdiv', 'srem', 'mul', 'fp')


def two_phase(eng, pc, hyp, todo, ms):
    """keep the implied items: first with the hard operations uninterpreted, then in full"""
    out = []
    hard = any(n.op in HARD or n.op == 'uf' for n in reach([x for x in list(pc) + list(hyp) + [g for _, g in todo] + list(eng.global_axioms) if isinstance(x, Node)]))
    for abstract in (True, False) if hard else (False,):
        q = Q(eng, ms if not hard or abstract else 1000, abstract)
        for p in pc:
            q.add(p)
        for g in eng.global_axioms:
            q.add(g)
        for t in hyp:
            q.add(t)
        k = batch(q, todo, None, 60 if not hard or abstract else 8)
        out += k
        ks = {id(x) for x in k}
        todo = [x for x in todo if id(x) not in ks]
        if not todo:
            break
    return out


def batch(q, todo, onremove, budget=60):
    z3 = q.z3
    todo = list(todo)
    zs = [q.conv.conv(g) for _, g in todo]
    q.flush()
    alive = list(range(len(todo)))
    dead_time = time.time() + budget * 3
    while alive:
        if time.time() > dead_time:
            return []
        q.s.push()
        q.s.add(z3.Or([z3.Not(zs[i]) for i in alive]))
        r = q.s.check()
        if r == z3.sat:
            m = q.s.model()
            q.s.pop()
            al = [i for i in alive if z3.is_true(m.eval(zs[i], model_completion=True))]
            if len(al) == len(alive):
                al = alive[:-1]
            alive = al
            continue
        q.s.pop()
        if r == z3.unsat:
            break
        # unknown: one at a time
        if DBG:
            print('   batch unknown', len(alive), q.s.reason_unknown())
        al = []
        for i in alive:
            if time.time() > dead_time:
                break
            q.s.push()
            q.s.add(z3.Not(zs[i]))
            r = q.s.check()
            q.s.pop()
            if r == z3.unsat:
                al.append(i)
        return [todo[i] for i in al]
    return [todo[i] for i in alive]


def houdini_fix(eng, pre, alive, goal, sth):
    """those of `alive` preserved when all of them are assumed.
    pre: back-edge path condition (contains the assumptions as conjuncts)"""
    todo = []
    keep = []
    for c, t in alive:
        g = goal(c)
        if g is True:
            keep.append((c, t))
        elif g is not False:
            todo.append(((c, t), g))
    kept = {id(c) for c, _ in keep} | {id(ct[0]) for ct, g in two_phase(eng, pre, [t for _, t in alive], todo, 3000)}
    return [(c, t) for c, t in alive if id(c) in kept]
