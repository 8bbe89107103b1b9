"""Hash-consed bit-vector / Boolean terms with local simplification, and their
translation to SMT.  Bit-vectors are either Python ints (constants) together with
an externally known width, or Node objects.  Booleans are True/False or Node with
width 0.

Every rewrite below is a plain bit-vector or propositional identity; ranges
(umin/umax) and known-zero masks (kz) are sound over-approximations used only to
fold comparisons and masks.
"""
import sys
sys.setrecursionlimit(200000)


class Node:
    __slots__ = ('op', 'args', 'w', 'p', 'id', 'kz', 'umin', 'umax', 'hasv')

    def __repr__(self):
        return f'<{self.op}#{self.id}:{self.w}>'


_tab = {}
_ids = [0]


def M(w):
    return (1 << w) - 1


def isbool(x):
    return isinstance(x, bool) or (isinstance(x, Node) and x.w == 0)


def is_c(x):
    return not isinstance(x, Node)


def nid(x):
    return x.id if isinstance(x, Node) else ('c', x)


def mk(op, args, w, p=None):
    key = (op, w, p, tuple([(a.id if isinstance(a, Node) else ('c', a)) for a in args]))
    n = _tab.get(key)
    if n is not None:
        return n
    n = Node()
    n.op = op
    n.args = tuple(args)
    n.w = w
    n.p = p
    _ids[0] += 1
    n.id = _ids[0]
    if w:
        _ranges(n)
    else:
        n.kz = 0
        n.umin = 0
        n.umax = 1
    _tab[key] = n
    return n


def umin(x):
    return x.umin if isinstance(x, Node) else x


def umax(x):
    return x.umax if isinstance(x, Node) else x


def kz(x, w):
    return x.kz if isinstance(x, Node) else (~x & M(w))


def _ranges(n):
    w = n.w
    m = M(w)
    op = n.op
    a = n.args
    lo, hi, z = 0, m, 0
    if op == 'sum':
        # p = (const, coeffs)
        c, coefs = n.p
        tlo = thi = c
        ok = True
        for t, k in zip(a, coefs):
            if k > (m >> 1):
                kk = k - (m + 1)
                tlo += kk * umax(t)
                thi += kk * umin(t)
            else:
                tlo += k * umin(t)
                thi += k * umax(t)
        if 0 <= tlo and thi <= m:
            lo, hi = tlo, thi
        elif thi < 0 and tlo >= -(m + 1):
            lo, hi = tlo + m + 1, thi + m + 1
        elif tlo > m and thi <= 2 * m + 1:
            lo, hi = tlo - m - 1, thi - m - 1
        # trailing zeros
        tz = _ctz(c, w)
        for t, k in zip(a, coefs):
            tt = _ctz(k, w) + _kzlow(kz(t, w), w)
            tz = min(tz, tt)
        if tz > 0:
            z |= M(min(tz, w))
    elif op == 'mul':
        x, y = a
        if umax(x) * umax(y) <= m:
            lo, hi = umin(x) * umin(y), umax(x) * umax(y)
    elif op == 'and':
        z = kz(a[0], w) | kz(a[1], w)
        hi = min(umax(a[0]), umax(a[1]))
    elif op == 'or':
        z = kz(a[0], w) & kz(a[1], w)
        lo = max(umin(a[0]), umin(a[1]))
    elif op == 'xor':
        z = kz(a[0], w) & kz(a[1], w)
    elif op == 'shl':
        if is_c(a[1]):
            s = a[1]
            z = ((kz(a[0], w) << s) | M(s)) & m
            if umax(a[0]) << s <= m:
                lo, hi = umin(a[0]) << s, umax(a[0]) << s
    elif op == 'lshr':
        if is_c(a[1]):
            s = a[1]
            z = (kz(a[0], w) >> s) | (m & ~(m >> s))
            lo, hi = umin(a[0]) >> s, umax(a[0]) >> s
        else:
            hi = umax(a[0])
    elif op == 'udiv':
        if is_c(a[1]) and a[1]:
            lo, hi = umin(a[0]) // a[1], umax(a[0]) // a[1]
        else:
            hi = m
    elif op == 'urem':
        if is_c(a[1]) and a[1]:
            hi = min(a[1] - 1, umax(a[0]))
    elif op == 'zext':
        x = a[0]
        z = kz(x, x.w) | (m & ~M(x.w))
        lo, hi = umin(x), umax(x)
    elif op == 'sext':
        x = a[0]
        sb = 1 << (x.w - 1)
        if umax(x) < sb:
            lo, hi = umin(x), umax(x)
            z = kz(x, x.w) | (m & ~M(x.w))
        elif umin(x) >= sb:
            ext = m & ~M(x.w)
            lo, hi = umin(x) | ext, umax(x) | ext
            z = kz(x, x.w)
    elif op == 'extract':
        x = a[0]
        l = n.p
        z = (kz(x, x.w) >> l) & m
        if umax(x) >> l <= m:
            lo, hi = umin(x) >> l, umax(x) >> l
    elif op == 'concat':
        # args: high..low; p widths
        z = 0
        lo = hi = 0
        for x, ww in zip(a, n.p):
            z = (z << ww) | (kz(x, ww) & M(ww))
            lo = (lo << ww) | umin(x)
            hi = (hi << ww) | umax(x)
    elif op == 'ite':
        z = kz(a[1], w) & kz(a[2], w)
        lo = min(umin(a[1]), umin(a[2]))
        hi = max(umax(a[1]), umax(a[2]))
    elif op == 'b2v':
        hi = 1
        z = m & ~1
    elif op == 'var':
        if len(n.p) > 1 and n.p[1] is not None:
            lo, hi = n.p[1]
    z &= m
    hz = m & ~z
    if hi > hz:
        hi = hz
    # leading zeros from hi
    z |= m & ~M(hi.bit_length())
    n.kz = z
    n.umin = lo
    n.umax = hi


def _ctz(c, w):
    if c == 0:
        return w
    return (c & -c).bit_length() - 1


def _kzlow(z, w):
    return _ctz(~z & M(w), w)


# ---------------------------------------------------------------- bit-vectors
def var(name, w, rng=None):
    if w == 0:
        return mk('bvar', (), 0, (name,))
    return mk('var', (), w, (name, rng))


def _lin(x, w):
    """linear view: (const, {id: (term, coeff)})"""
    if is_c(x):
        return x & M(w), ()
    if x.op == 'sum':
        return x.p[0], tuple(zip(x.args, x.p[1]))
    if x.op == 'shl' and is_c(x.args[1]):
        c, l = _lin(x.args[0], w)
        k = 1 << x.args[1]
        return (c * k) & M(w), tuple([(t, (cc * k) & M(w)) for t, cc in l if (cc * k) & M(w)])
    return 0, ((x, 1),)


def lin_combine(w, parts):
    """sum of coeff*x for (x, coeff) in parts -> term"""
    m = M(w)
    c = 0
    d = {}
    for x, k in parts:
        if k == 0:
            continue
        c0, l = _lin(x, w)
        c += c0 * k
        for t, kk in l:
            e = d.get(t.id)
            if e is None:
                d[t.id] = [t, kk * k]
            else:
                e[1] += kk * k
    c &= m
    items = []
    dv = False
    for i, (t, k) in d.items():
        k &= m
        if k:
            items.append((t, k))
            u = t.args[0] if t.op == 'zext' else t
            dv = dv or (u.op == 'udiv' and is_c(u.args[1])) or (t.op == 'extract' and t.p == 0 and t.args[0].op == 'udiv' and is_c(t.args[0].args[1]))
    if dv and len(items) > 1:
        items = _divrem(items, w)
        if items and items[0] is None:
            return lin_combine(w, [x for x in items[1:]] + [(c, 1)])
    if not items:
        return c
    items.sort(key=lambda z: z[0].id)
    if len(items) == 1 and c == 0:
        t, k = items[0]
        if k == 1:
            return t
        if k & (k - 1) == 0:
            return shl_raw(t, k.bit_length() - 1, w)
    # sum of ite over constants with same cond etc. left to solver
    # disjoint small sums of concat-able pieces are left as sums
    return mk('sum', [t for t, k in items], w, (c, tuple([k for t, k in items])))


def _divrem(items, w):
    """k*b*(x/b) + k*(x%b) = k*x  and  k*x - k*b*(x/b) = k*(x%b)"""
    m = M(w)
    ks = {t.id: (t, k) for t, k in items}
    for t, k in items:
        if t.op == 'urem' and is_c(t.args[1]):
            x, b = t.args
            q = udiv(x, b, w)
            if isinstance(q, Node) and q.id in ks and ks[q.id][1] == k * b & m:
                return [None] + [i for i in items if i[0] is not t and i[0] is not q] + [(x, k)]
        if t.op == 'zext' and t.args[0].op == 'urem' and is_c(t.args[0].args[1]):
            x, b = t.args[0].args
            q = zext(udiv(x, b, x.w), x.w, w)
            if isinstance(q, Node) and q.id in ks and ks[q.id][1] == k * b & m:
                return [None] + [i for i in items if i[0] is not t and i[0] is not q] + [(zext(x, x.w, w), k)]
    for t, k in items:
        if t.op != 'udiv' or not is_c(t.args[1]):
            continue
        for x, kx in items:
            if x is t:
                continue
            # t = x / b ?
            if x.op == 'udiv' and is_c(x.args[1]) and x.args[0] is t.args[0]:
                if t.args[1] % x.args[1] or t.args[1] == x.args[1]:
                    continue
                b = t.args[1] // x.args[1]
            elif x is t.args[0]:
                b = t.args[1]
            else:
                continue
            if k == (-kx * b) & m:
                r = urem(x, b, w)
                if isinstance(r, Node) and r.op == 'urem':
                    return [None] + [i for i in items if i[0] is not t and i[0] is not x] + [(r, kx)]
    # the same modulo 2^w, the dividend truncated and spread over the sum
    for t, k in items:
        d = t.args[0] if t.op == 'extract' and t.p == 0 else t
        if not isinstance(d, Node) or d.op != 'udiv' or not is_c(d.args[1]):
            continue
        X, b = d.args
        cands = [(X, b)]
        if is_c(b):
            for b2 in (10, 100):   # t = (X / (b / b2)) / b2
                if b % b2 == 0 and b // b2 > 1:
                    cands.append((udiv(X, b // b2, d.w), b2))
        for Y, bb in cands:
            if d is t and isinstance(Y, Node) and Y.op not in ('sum', 'shl'):
                continue
            c0, L = _lin(extract(Y, 0, w) if d is not t else Y, w)
            if not L or L[0][1] != 1 or L[0][0].id not in ks:
                continue
            kx = ks[L[0][0].id][1]
            if k != (-kx * bb) & m:
                continue
            if any(y.id not in ks or ks[y.id][1] != kx * cy & m or y is t for y, cy in L):
                continue
            r = urem(Y, bb, d.w)
            if d is not t:
                r = extract(r, 0, w)
            gone = {y.id for y, cy in L} | {t.id}
            return [None] + [i for i in items if i[0].id not in gone] + [(r, kx), (1, (-kx * c0) & m)]
    return items


def shl_raw(t, s, w):
    return mk('shl', (t, s), w)


def add(a, b, w):
    if is_c(a) and is_c(b):
        return (a + b) & M(w)
    if is_c(a) and a == 0:
        return b
    if is_c(b) and b == 0:
        return a
    # push constants into ite with constant leaves
    if is_c(b) and isinstance(a, Node) and a.op == 'ite' and _constleaf(a, 4):
        return mapleaf(a, lambda v: (v + b) & M(w), w)
    return lin_combine(w, ((a, 1), (b, 1)))


def sub(a, b, w):
    if is_c(a) and is_c(b):
        return (a - b) & M(w)
    if is_c(b) and b == 0:
        return a
    if is_c(b) and isinstance(a, Node) and a.op == 'ite' and _constleaf(a, 4):
        return mapleaf(a, lambda v: (v - b) & M(w), w)
    return lin_combine(w, ((a, 1), (b, M(w))))


def neg(a, w):
    return sub(0, a, w)


def mul(a, b, w):
    if is_c(a) and is_c(b):
        return (a * b) & M(w)
    if is_c(a):
        a, b = b, a
    if is_c(b):
        if b == 0:
            return 0
        if b == 1:
            return a
        return lin_combine(w, ((a, b),))
    if b.id < a.id:
        a, b = b, a
    return mk('mul', (a, b), w)


def bnot(a, w):
    return bxor(a, M(w), w)


def _constleaf(x, depth):
    if is_c(x):
        return True
    if depth == 0:
        return False
    if x.op == 'ite':
        return _constleaf(x.args[1], depth - 1) and _constleaf(x.args[2], depth - 1)
    return False


def mapleaf(x, f, w):
    if is_c(x):
        return f(x)
    return ite(x.args[0], mapleaf(x.args[1], f, w), mapleaf(x.args[2], f, w), w)


def band(a, b, w):
    if is_c(a) and is_c(b):
        return a & b
    if is_c(a):
        a, b = b, a
    if is_c(b):
        b &= M(w)
        live = ~kz(a, w) & M(w)
        if live & b == 0:
            return 0
        if live & b == live:
            return a
        if a.op == 'and' and is_c(a.args[1]):
            return band(a.args[0], a.args[1] & b, w)
        if a.op == 'ite' and _constleaf(a, 3):
            return mapleaf(a, lambda v: v & b, w)
        # low mask -> zext(extract)
        if b & (b + 1) == 0:
            k = b.bit_length()
            return zext(extract(a, 0, k), k, w)
        if a.op == 'or' or a.op == 'xor':
            x = band(a.args[0], b, w)
            y = band(a.args[1], b, w)
            return bor(x, y, w) if a.op == 'or' else bxor(x, y, w)
        # single contiguous run mask
        t = b >> _ctz(b, w)
        if t & (t + 1) == 0:
            l = _ctz(b, w)
            k = t.bit_length()
            return shl(zext(extract(a, l, k), k, w), l, w)
        return mk('and', (a, b), w)
    if a is b:
        return a
    if (~kz(a, w)) & (~kz(b, w)) & M(w) == 0:
        return 0
    if b.id < a.id:
        a, b = b, a
    return mk('and', (a, b), w)


def bor(a, b, w):
    for x, y in ((a, b), (b, a)):
        if is_c(y) and isinstance(x, Node) and (x.op in ('urem', 'udiv') or x.op == 'extract' and x.args[0].op in ('urem', 'udiv')) and \
                y & ~x.kz & M(w) == 0:
            return add(x, y, w)
    if is_c(a) and is_c(b):
        return a | b
    if is_c(a):
        a, b = b, a
    if is_c(b):
        if b == 0:
            return a
        if b == M(w):
            return b
        if a.op == 'ite' and _constleaf(a, 3):
            return mapleaf(a, lambda v: v | b, w)
        if a.op == 'or' and is_c(a.args[1]):
            return bor(a.args[0], a.args[1] | b, w)
        return mk('or', (a, b), w)
    if a is b:
        return a
    r = _merge_disjoint(a, b, w)
    if r is not None:
        return r
    if b.id < a.id:
        a, b = b, a
    return mk('or', (a, b), w)


def _pieces(x, w):
    """decompose into list of (shift,width,term) low to high non-overlapping; None if not structured"""
    if is_c(x):
        return None
    if x.op == 'zext':
        return _pieces(x.args[0], x.args[0].w)
    if x.op == 'concat':
        out = []
        pos = 0
        for t, ww in zip(reversed(x.args), reversed(x.p)):
            if is_c(t):
                if t != 0:
                    out.append((pos, ww, t))
            else:
                out.append((pos, ww, t))
            pos += ww
        return out
    if x.op == 'shl' and is_c(x.args[1]):
        s = x.args[1]
        inner = _pieces(x.args[0], w)
        if inner is None:
            return None
        out = []
        for p, ww, t in inner:
            if p + s >= w:
                continue
            if p + s + ww > w:
                t = extract(t, 0, w - p - s) if isinstance(t, Node) else t & M(w - p - s)
                ww = w - p - s
            out.append((p + s, ww, t))
        return out
    return [(0, w, x)]


def from_pieces(ps, w):
    ps = sorted(ps, key=lambda z: z[0])
    out = []
    pos = 0
    for p, ww, t in ps:
        if p > pos:
            out.append((0, p - pos))
        out.append((t, ww))
        pos = p + ww
    if pos < w:
        out.append((0, w - pos))
    out.reverse()
    return concat([t for t, _ in out], [ww for _, ww in out])


def _merge_disjoint(a, b, w):
    if (~kz(a, w)) & (~kz(b, w)) & M(w):
        return None
    pa = _pieces(a, w)
    if pa is None:
        return None
    pb = _pieces(b, w)
    if pb is None:
        return None
    # trim whole-width pieces by known zero bits
    ps = []
    for p, ww, t in pa + pb:
        if isinstance(t, Node):
            live = ~t.kz & M(ww)
            if live == 0:
                continue
            hi = live.bit_length()
            lo = _ctz(live, ww)
            if hi < ww or lo > 0:
                t2 = extract(t, lo, hi - lo)
                ps.append((p + lo, hi - lo, t2))
                continue
        ps.append((p, ww, t))
    ps.sort(key=lambda z: z[0])
    for i in range(len(ps) - 1):
        if ps[i][0] + ps[i][1] > ps[i + 1][0]:
            return None
    return from_pieces(ps, w)


def bxor(a, b, w):
    if is_c(a) and is_c(b):
        return a ^ b
    if is_c(a):
        a, b = b, a
    if is_c(b):
        if b == 0:
            return a
        if a.op == 'xor' and is_c(a.args[1]):
            return bxor(a.args[0], a.args[1] ^ b, w)
        if a.op == 'ite' and _constleaf(a, 3):
            return mapleaf(a, lambda v: v ^ b, w)
        return mk('xor', (a, b), w)
    if a is b:
        return 0
    if b.id < a.id:
        a, b = b, a
    return mk('xor', (a, b), w)


def shl(a, s, w):
    if is_c(s):
        if s == 0:
            return a
        if s >= w:
            return 0
        if is_c(a):
            return (a << s) & M(w)
        if a.op == 'shl' and is_c(a.args[1]):
            return shl(a.args[0], a.args[1] + s, w)
        if a.op == 'sum':
            return lin_combine(w, ((a, 1 << s),))
        if (~a.kz << s) & M(w) == 0:
            return 0
        if a.op == 'zext':
            x = a.args[0]
            if x.w + s > w:
                x = extract(x, 0, w - s)
                return concat([x, 0], [w - s, s])
            return concat([0, x, 0], [w - s - x.w, x.w, s]) if w - s - x.w > 0 else concat([x, 0], [x.w, s])
        if a.op == 'concat':
            x = extract(a, 0, w - s)
            return concat([x, 0], [w - s, s])
        return mk('shl', (a, s), w)
    if is_c(a) and a == 0:
        return 0
    if s.op == 'ite' and _constleaf(s, 8):
        return mapleaf_v(s, lambda v: shl(a, v, w), w)
    return mk('shl', (a, s), w)


def mapleaf_v(x, f, w):
    if is_c(x):
        return f(x)
    return ite(x.args[0], mapleaf_v(x.args[1], f, w), mapleaf_v(x.args[2], f, w), w)


def lshr(a, s, w):
    if is_c(s):
        if s == 0:
            return a
        if s >= w:
            return 0
        if is_c(a):
            return a >> s
        if umax(a) >> s == 0:
            return 0
        if a.op == 'sum':
            d = _div_split(a, 1 << s, w)
            if d:
                return d[0] if d[2] < 1 << s else add(d[0], lshr(d[1], s, w), w)
        x = extract(a, s, w - s)
        return zext(x, w - s, w)
    if is_c(a) and a == 0:
        return 0
    if s.op == 'ite' and _constleaf(s, 8):
        return mapleaf_v(s, lambda v: lshr(a, v, w), w)
    return mk('lshr', (a, s), w)


def ashr(a, s, w):
    if is_c(s):
        if s == 0:
            return a
        if s >= w:
            s = w - 1
        if is_c(a):
            return (sgn(a, w) >> s) & M(w)
        if umax(a) < (1 << (w - 1)):
            return lshr(a, s, w)
        x = extract(a, s, w - s)
        return sext(x, w - s, w)
    return mk('ashr', (a, s), w)


def sgn(a, w):
    a &= M(w)
    return a - (1 << w) if a >> (w - 1) else a


LIN = False   # option "lin": stronger rules for division and comparison of linear forms


def _div_split(a, b, w):
    """a = b*q + r with r >= 0 when a is a linear form that does not wrap: (q, r, largest r) or None"""
    if not LIN or a.op not in ('sum', 'shl'):
        return None
    c0, L = _lin(a, w)
    c0 = sgn(c0, w)
    L = [(t, sgn(k, w)) for t, k in L]
    if not any(k >= b or k < 0 for t, k in L) and 0 <= c0 < b:
        return None
    lo = c0 + sum(k * (umin(t) if k > 0 else umax(t)) for t, k in L)
    hi = c0 + sum(k * (umax(t) if k > 0 else umin(t)) for t, k in L)
    if lo < 0 or hi > M(w):
        return None
    # negative coefficients stay whole in the remainder unless they are multiples of b
    q = [(t, k // b if k > 0 or k % b == 0 else 0) for t, k in L]
    r = [(t, k - b * j) for (t, k), (_, j) in zip(L, q)]
    rlo = sum(k * (umin(t) if k > 0 else umax(t)) for t, k in r)
    j = (c0 + rlo) // b
    if not j and not any(k for t, k in q):
        return None
    rc = c0 - j * b
    rhi = rc + sum(k * (umax(t) if k > 0 else umin(t)) for t, k in r)
    return lin_combine(w, q + [(1, j)]), lin_combine(w, r + [(1, rc)]), rhi


def udiv(a, b, w):
    if is_c(b) and b > 1 and isinstance(a, Node) and (a.op == 'sum' or a.op == 'shl'):
        s = _div_split(a, b, w)
        if s:
            return s[0] if s[2] < b else add(s[0], udiv(s[1], b, w), w)
    if is_c(b):
        if b == 0:
            return M(w)
        if b == 1:
            return a
        if is_c(a):
            return a // b
        if b & (b - 1) == 0:
            return lshr(a, b.bit_length() - 1, w)
        if umax(a) < b:
            return 0
        # (a/c1)/c2 = a/(c1*c2)
        if a.op == 'udiv' and is_c(a.args[1]) and a.args[1]:
            return udiv(a.args[0], a.args[1] * b, w) if a.args[1] * b <= M(w) else 0
        if a.op == 'zext' and b < (1 << a.args[0].w):
            return zext(udiv(a.args[0], b, a.args[0].w), a.args[0].w, w)
    return mk('udiv', (a, b), w)


def urem(a, b, w):
    if is_c(b) and b > 1 and isinstance(a, Node) and (a.op == 'sum' or a.op == 'shl'):
        s = _div_split(a, b, w)
        if s:
            return urem(s[1], b, w)
    if is_c(b):
        if b == 0:
            return a
        if b == 1:
            return 0
        if is_c(a):
            return a % b
        if b & (b - 1) == 0:
            return band(a, b - 1, w)
        if umax(a) < b:
            return a
        if a.op == 'zext' and b < (1 << a.args[0].w):
            return zext(urem(a.args[0], b, a.args[0].w), a.args[0].w, w)
    return mk('urem', (a, b), w)


def sdiv(a, b, w):
    if is_c(a) and is_c(b) and b:
        x, y = sgn(a, w), sgn(b, w)
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        return q & M(w)
    sb = 1 << (w - 1)
    if is_c(b) and sb < b < M(w):
        return sub(0, sdiv(a, sub(0, b, w), w), w)
    if is_c(b) and 0 < b < sb:
        if umax(a) < sb:
            return udiv(a, b, w)
        # sign split so that only unsigned division remains
        neg_ = slt(a, 0, w)
        na = sub(0, a, w)
        return ite(neg_, sub(0, udiv(na, b, w), w), udiv(a, b, w), w)
    return mk('sdiv', (a, b), w)


def srem(a, b, w):
    if is_c(a) and is_c(b) and b:
        x, y = sgn(a, w), sgn(b, w)
        r = abs(x) % abs(y)
        if x < 0:
            r = -r
        return r & M(w)
    if is_c(b):
        return sub(a, mul(sdiv(a, b, w), b, w), w)
    return mk('srem', (a, b), w)


_xc = {}


def extract(a, l, n):
    """bits l..l+n-1 of a"""
    if is_c(a):
        return (a >> l) & M(n)
    key = (a.id, l, n)
    r = _xc.get(key)
    if r is None:
        r = _xc[key] = _extract(a, l, n)
    return r


def _extract(a, l, n):
    w = a.w
    if l == 0 and n == w:
        return a
    live = (~a.kz >> l) & M(n)
    if live == 0:
        return 0
    op = a.op
    if op == 'extract':
        return extract(a.args[0], a.p + l, n)
    if op == 'zext':
        x = a.args[0]
        if l >= x.w:
            return 0
        if l + n <= x.w:
            return extract(x, l, n)
        return zext(extract(x, l, x.w - l), x.w - l, n)
    if op == 'sext':
        x = a.args[0]
        if l + n <= x.w:
            return extract(x, l, n)
        if l < x.w:
            return sext(extract(x, l, x.w - l), x.w - l, n)
    if op == 'concat':
        ts = []
        ws = []
        pos = w
        for t, ww in zip(a.args, a.p):
            pos -= ww
            lo = max(l, pos)
            hi = min(l + n, pos + ww)
            if lo < hi:
                ts.append(extract(t, lo - pos, hi - lo))
                ws.append(hi - lo)
        return concat(ts, ws)
    if op in ('and', 'or', 'xor'):
        x = extract(a.args[0], l, n)
        y = extract(a.args[1], l, n)
        return {'and': band, 'or': bor, 'xor': bxor}[op](x, y, n)
    if op == 'ite':
        x, y = a.args[1], a.args[2]
        if is_c(x) or is_c(y) or n <= 8:
            return ite(a.args[0], extract(x, l, n), extract(y, l, n), n)
    if op == 'shl' and is_c(a.args[1]):
        s = a.args[1]
        if l >= s:
            return extract(a.args[0], l - s, n)
        if l + n <= s:
            return 0
        return concat([extract(a.args[0], 0, l + n - s), 0], [l + n - s, s - l])
    if op in ('urem', 'udiv') and l == 0 and is_c(a.args[1]) and umax(a) <= M(n):
        return mk('extract', (a,), n, l)
    if op == 'sum' and l == 0:
        c, cf = a.p
        return lin_combine(n, [(extract(t, 0, n), k & M(n)) for t, k in zip(a.args, cf)] + [(c & M(n), 1)])
    if op == 'mul' and l == 0:
        return mul(extract(a.args[0], 0, n), extract(a.args[1], 0, n), n)
    if op == 'b2v':
        if l == 0:
            return b2v(a.args[0], n)
        return 0
    return mk('extract', (a,), n, l)


def trunc(a, w, n):
    return extract(a, 0, n)


def zext(a, w, n):
    if w == n:
        return a
    if is_c(a):
        return a
    if a.op == 'zext':
        return zext(a.args[0], a.args[0].w, n)
    if a.op == 'b2v':
        return b2v(a.args[0], n)
    if a.op == 'ite' and _constleaf(a, 6):
        return mapleaf(a, lambda v: v, n)
    if a.op == 'extract' and a.p == 0 and a.args[0].op in ('urem', 'udiv') and umax(a.args[0]) <= M(w):
        x = a.args[0]
        return x if x.w == n else zext(x, x.w, n) if x.w < n else extract(x, 0, n)
    if a.op == 'sum' and any(t.op == 'extract' and t.args[0].op in ('urem', 'udiv') for t in a.args):
        # no wrap-around: extend the parts
        c, cf = a.p
        if all(k <= M(w) >> 1 for k in cf):
            if c + sum(k * umax(t) for t, k in zip(a.args, cf)) <= M(w):
                return lin_combine(n, [(zext(t, w, n), k) for t, k in zip(a.args, cf)] + [(c, 1)])
            if c > M(w) >> 1:
                lo = c - M(w) - 1 + sum(k * umin(t) for t, k in zip(a.args, cf))
                hi = c - M(w) - 1 + sum(k * umax(t) for t, k in zip(a.args, cf))
                if lo >= 0 and hi <= M(w):
                    return lin_combine(n, [(zext(t, w, n), k) for t, k in zip(a.args, cf)] + [((c - M(w) - 1) & M(n), 1)])
    return mk('zext', (a,), n)


def sext(a, w, n):
    if w == n:
        return a
    if is_c(a):
        return sgn(a, w) & M(n)
    if umax(a) < (1 << (w - 1)):
        return zext(a, w, n)
    if a.op == 'sext':
        return sext(a.args[0], a.args[0].w, n)
    if a.op == 'ite' and _constleaf(a, 6):
        return mapleaf(a, lambda v: sgn(v, w) & M(n), n)
    return mk('sext', (a,), n)


def concat(ts, ws):
    """ts high..low"""
    # flatten, merge
    ft = []
    fw = []
    for t, w in zip(ts, ws):
        if w == 0:
            continue
        if isinstance(t, Node) and t.op == 'concat':
            ft.extend(t.args)
            fw.extend(t.p)
        elif isinstance(t, Node) and t.op == 'zext':
            ft.append(0)
            fw.append(w - t.args[0].w)
            x = t.args[0]
            if x.op == 'concat':
                ft.extend(x.args)
                fw.extend(x.p)
            else:
                ft.append(x)
                fw.append(x.w)
        else:
            ft.append(t)
            fw.append(w)
    ot = []
    ow = []
    for t, w in zip(ft, fw):
        if ot:
            u, uw = ot[-1], ow[-1]
            if is_c(t) and is_c(u):
                ot[-1] = (u << w) | t
                ow[-1] = uw + w
                continue
            if isinstance(t, Node) and isinstance(u, Node):
                ub, ul = (u.args[0], u.p) if u.op == 'extract' else (u, 0)
                tb, tl = (t.args[0], t.p) if t.op == 'extract' else (t, 0)
                if ub is tb and ul == tl + w and (u.op == 'extract'):
                    ot[-1] = extract(ub, tl, uw + w)
                    ow[-1] = uw + w
                    continue
                if u.op == 'extract' and ul == w and ub.op in ('sum', 'shl') and extract(ub, 0, w) is t:
                    if ot[:-1] == [0] and len(ot) == 2 and ub.w == ow[0] + uw + w and umax(ub) <= M(uw + w):
                        ot, ow = [ub], [ub.w]
                        continue
                    ot[-1] = extract(ub, 0, uw + w)
                    ow[-1] = uw + w
                    continue
        ot.append(t)
        ow.append(w)
    W = sum(ow)
    if len(ot) == 1:
        return ot[0]
    if is_c(ot[0]) and ot[0] == 0:
        rest = concat(ot[1:], ow[1:]) if len(ot) > 2 else ot[1]
        return zext(rest, W - ow[0], W) if isinstance(rest, Node) else rest
    # concat of ites over the same condition -> ite of concats
    conds = [t.args[0] for t in ot if isinstance(t, Node) and t.op == 'ite']
    if conds and all((isinstance(t, Node) and t.op == 'ite' and t.args[0] is conds[0]) or is_c(t) for t in ot):
        return ite(conds[0],
                   concat([t if is_c(t) else t.args[1] for t in ot], ow),
                   concat([t if is_c(t) else t.args[2] for t in ot], ow), W)
    return mk('concat', ot, W, tuple(ow))


def ite(c, a, b, w):
    if c is True:
        return a
    if c is False:
        return b
    if w == 0:
        return bite(c, a, b)
    if is_c(a) and is_c(b):
        if a == b:
            return a
    elif a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a, w)
    if isinstance(a, Node) and a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if isinstance(b, Node) and b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if is_c(a) and is_c(b):
        if a == b:
            return a
        if a == 1 and b == 0:
            return b2v(c, w)
        if a == 0 and b == 1:
            return b2v(lnot(c), w)
    elif a is b:
        return a
    # ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
    if isinstance(b, Node) and b.op == 'ite' and same(b.args[1], a):
        return ite(lor(c, b.args[0]), a, b.args[2], w)
    if isinstance(b, Node) and b.op == 'ite' and same(b.args[2], a):
        return ite(land(lnot(c), b.args[0]), b.args[1], a, w)
    if w == 64:
        ba = _objbase(a)
        if ba and ba == _objbase(b):
            return add(ba, ite(c, sub(a, ba, 64), sub(b, ba, 64), 64), 64)
    return mk('ite', (c, a, b), w)


def _objbase(a):
    # the object base inside the constant part of an address (see mem layout: id << 40)
    if is_c(a):
        k = a
    elif a.op == 'sum':
        k = a.p[0]
    else:
        return 0
    o = (k + (1 << 39)) >> 40
    return o << 40 if 0 < o < (1 << 20) else 0


def same(a, b):
    if is_c(a) or is_c(b):
        return is_c(a) and is_c(b) and a == b
    return a is b


def b2v(c, w):
    if c is True:
        return 1
    if c is False:
        return 0
    return mk('b2v', (c,), w)


def v2b(a):
    """i1-ish: nonzero test"""
    return ne(a, 0, a.w if isinstance(a, Node) else 64)


# ---------------------------------------------------------------- booleans
def lnot(a):
    if a is True:
        return False
    if a is False:
        return True
    if a.op == 'not':
        return a.args[0]
    if a.op == 'ult':
        # !(x<y) -> y<=x
        return mk('ule', (a.args[1], a.args[0]), 0, a.p)
    if a.op == 'ule':
        return mk('ult', (a.args[1], a.args[0]), 0, a.p)
    if a.op == 'slt':
        return mk('sle', (a.args[1], a.args[0]), 0, a.p)
    if a.op == 'sle':
        return mk('slt', (a.args[1], a.args[0]), 0, a.p)
    return mk('not', (a,), 0)


def _flat(op, a, out):
    if isinstance(a, Node) and a.op == op:
        for x in a.args:
            out[x.id] = x
    else:
        out[a.id] = a


def land(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    if a is b:
        return a
    d = {}
    _flat('land', a, d)
    _flat('land', b, d)
    return _mkand(d)


def land_all(l):
    d = {}
    for a in l:
        if a is True:
            continue
        if a is False:
            return False
        _flat('land', a, d)
    return _mkand(d)


def _mkand(d):
    if not d:
        return True
    # complement / absorption
    changed = True
    while changed:
        changed = False
        for i, x in list(d.items()):
            n = lnot(x)
            if n is True or n is False:
                continue
            if n.id in d:
                return False
            if x.op == 'lor':
                # remove falsified disjuncts / absorbed
                drop = []
                for y in x.args:
                    if y.id in d and y.id != i:
                        drop = None
                        break
                    if lnot(y).id in d:
                        drop.append(y)
                if drop is None:
                    del d[i]
                    changed = True
                    break
                if drop:
                    dd = {y.id: y for y in x.args if y not in drop}
                    del d[i]
                    r = _mkor(dd)
                    if r is False:
                        return False
                    if r is not True:
                        _flat('land', r, d)
                    changed = True
                    break
    if not d:
        return True
    xs = list(d.values())
    if len(xs) == 1:
        return xs[0]
    xs.sort(key=lambda n: n.id)
    return mk('land', xs, 0)


def lor(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    if a is b:
        return a
    d = {}
    _flat('lor', a, d)
    _flat('lor', b, d)
    return _mkor(d)


def lor_all(l):
    d = {}
    for a in l:
        if a is False:
            continue
        if a is True:
            return True
        _flat('lor', a, d)
    return _mkor(d)


def _mkor(d):
    if not d:
        return False
    changed = True
    while changed:
        changed = False
        for i, x in list(d.items()):
            n = lnot(x)
            if n.id in d:
                return True
            if x.op == 'land':
                drop = []
                for y in x.args:
                    if y.id in d and y.id != i:
                        drop = None
                        break
                    if lnot(y).id in d:
                        drop.append(y)
                if drop is None:
                    del d[i]
                    changed = True
                    break
                if drop:
                    dd = {y.id: y for y in x.args if y not in drop}
                    del d[i]
                    r = _mkand(dd)
                    if r is True:
                        return True
                    if r is not False:
                        _flat('lor', r, d)
                    changed = True
                    break
    # (p&q)|(p&!q) -> p
    ands = [x for x in d.values() if x.op == 'land']
    if 2 <= len(ands) <= 12:
        for i in range(len(ands)):
            for j in range(i + 1, len(ands)):
                s1 = {y.id: y for y in ands[i].args}
                s2 = {y.id: y for y in ands[j].args}
                if abs(len(s1) - len(s2)) > 0:
                    continue
                o1 = [y for k, y in s1.items() if k not in s2]
                o2 = [y for k, y in s2.items() if k not in s1]
                if len(o1) == 1 and len(o2) == 1 and lnot(o1[0]) is o2[0]:
                    dd = {k: y for k, y in s1.items() if k in s2}
                    d = dict(d)
                    del d[ands[i].id]
                    del d[ands[j].id]
                    r = _mkand(dd)
                    if r is True:
                        return True
                    _flat('lor', r, d)
                    return _mkor(d)
    xs = list(d.values())
    if len(xs) == 1:
        return xs[0]
    xs.sort(key=lambda n: n.id)
    return mk('lor', xs, 0)


def lxor(a, b):
    if a is True:
        return lnot(b)
    if a is False:
        return b
    if b is True:
        return lnot(a)
    if b is False:
        return a
    if a is b:
        return False
    return lnot(beq(a, b))


def beq(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False:
        return lnot(b)
    if b is False:
        return lnot(a)
    if a is b:
        return True
    if lnot(a) is b:
        return False
    if b.id < a.id:
        a, b = b, a
    return mk('beq', (a, b), 0)


def bite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is True:
        return lor(c, b)
    if a is False:
        return land(lnot(c), b)
    if b is True:
        return lor(lnot(c), a)
    if b is False:
        return land(c, a)
    if a is b:
        return a
    if c.op == 'not':
        return bite(c.args[0], b, a)
    return mk('bite', (c, a, b), 0)


def implies(a, b):
    return lor(lnot(a), b)


def _eq_scaled(a, b, w):
    """k*ext(x) + R = k*ext(y) + R  is  x = y  when k*(ext(x) - ext(y)) cannot wrap to 0"""
    if not LIN:
        return None
    c0, L = _lin(a, w)
    c1, L1 = _lin(b, w)
    if (c0 - c1) & M(w) or abs(len(L) - len(L1)) > 1:
        return None
    d = {}
    for t, k in L:
        d[t.id] = (t, k)
    for t, k in L1:
        d[t.id] = (t, d[t.id][1] - k if t.id in d else -k)
    d = [(t, k & M(w)) for t, k in d.values() if k & M(w)]
    if len(d) != 2 or (d[0][1] + d[1][1]) & M(w):
        return None
    (x, k), (y, _) = d
    if x.op not in ('zext', 'sext') or y.op != x.op or x.args[0].w != y.args[0].w:
        return None
    n = x.args[0].w
    if (k & -k) << n > 1 << w:
        return None
    return eq(x.args[0], y.args[0], n)


def eq(a, b, w):
    if is_c(a) and is_c(b):
        return a == b
    if a is b:
        return True
    if is_c(a):
        a, b = b, a
    if umax(a) < umin(b) or umax(b) < umin(a):
        return False
    if is_c(b):
        if b & a.kz:
            return False
        if a.op == 'zext':
            return eq(a.args[0], b, a.args[0].w)
        if a.op == 'b2v':
            return a.args[0] if b == 1 else lnot(a.args[0]) if b == 0 else False
        if a.op == 'ite':
            x, y = a.args[1], a.args[2]
            if is_c(x) or is_c(y) :
                return bite(a.args[0], eq(x, b, w), eq(y, b, w))
        if a.op == 'sum' and len(a.args) == 1 and a.p[1][0] == 1:
            return eq(a.args[0], (b - a.p[0]) & M(w), w)
        if a.op == 'xor' and is_c(a.args[1]):
            return eq(a.args[0], a.args[1] ^ b, w)
        if a.op == 'concat':
            r = True
            pos = a.w
            for t, ww in zip(a.args, a.p):
                pos -= ww
                r = land(r, eq(t, (b >> pos) & M(ww), ww))
                if r is False:
                    return False
            return r
        if a.op == 'or' and b == 0:
            return land(eq(a.args[0], 0, w), eq(a.args[1], 0, w))
        if a.op == 'udiv' and is_c(a.args[1]) and a.args[1]:
            d = a.args[1]
            return land(ule(b * d, a.args[0], w) if b * d <= M(w) else False,
                        ult(a.args[0], (b + 1) * d, w) if (b + 1) * d <= M(w) else True)
        return mk('eq', (a, b), 0, w)
    if a.op == 'zext' and b.op == 'zext' and a.args[0].w == b.args[0].w:
        return eq(a.args[0], b.args[0], a.args[0].w)
    if a.op == 'sext' and b.op == 'sext' and a.args[0].w == b.args[0].w:
        return eq(a.args[0], b.args[0], a.args[0].w)
    if a.op == 'sum' and b.op == 'sum':
        r = _eq_scaled(a, b, w)
        if r is not None:
            return r
    if a.op == 'concat' and b.op == 'concat' and a.p == b.p:
        r = True
        for x, y, ww in zip(a.args, b.args, a.p):
            r = land(r, eq(x, y, ww))
            if r is False:
                return False
        return r
    if a.op == 'ite' and b.op == 'ite' and a.args[0] is b.args[0]:
        return bite(a.args[0], eq(a.args[1], b.args[1], w), eq(a.args[2], b.args[2], w))
    if a.op == 'sum' or b.op == 'sum':
        d = lin_combine(w, ((a, 1), (b, M(w))))
        if is_c(d):
            return d == 0
        if d.op == 'sum' and len(d.args) == 1 and d.p[1][0] in (1, M(w)):
            k = (-d.p[0]) & M(w)
            if d.p[1][0] == M(w):
                k = (-k) & M(w)
            return eq(d.args[0], k, w)
        if d.op != 'sum':
            return eq(d, 0, w)
        tz = _kzlow(d.kz, w)
        if d.op == 'sum':
            # parity argument: const part not divisible
            ctz = min([_ctz(k, w) + _kzlow(kz(t, w), w) for t, k in zip(d.args, d.p[1])])
            if d.p[0] and _ctz(d.p[0], w) < ctz:
                return False
    if b.id < a.id:
        a, b = b, a
    return mk('eq', (a, b), 0, w)


def ne(a, b, w):
    return lnot(eq(a, b, w))


def _lin_diff(a, b, w, signed=False):
    """range of a - b as integers, for linear forms with common parts that do not wrap"""
    if not LIN or not (isinstance(a, Node) and isinstance(b, Node)) or 'sum' not in (a.op, b.op):
        return None
    base, top = (-(1 << (w - 1)), M(w) >> 1) if signed else (0, M(w))
    d = {}
    c = 0
    common = False
    for x, sg in ((a, 1), (b, -1)):
        c0, L = _lin(x, w)
        c0 = sgn(c0, w)
        lo = hi = c0
        for t, k in L:
            k = sgn(k, w)
            lo += k * (umin(t) if k > 0 else umax(t))
            hi += k * (umax(t) if k > 0 else umin(t))
            common = common or t.id in d
            d[t.id] = (t, d[t.id][1] + sg * k if t.id in d else sg * k)
        if lo < base or hi > top:
            return None
        c += sg * c0
    if not common:
        return None
    lo = c + sum(k * (umin(t) if k > 0 else umax(t)) for t, k in d.values())
    hi = c + sum(k * (umax(t) if k > 0 else umin(t)) for t, k in d.values())
    return lo, hi


def ult(a, b, w):
    if is_c(a) and is_c(b):
        return a < b
    if a is b:
        return False
    if umax(a) < umin(b):
        return True
    if umin(a) >= umax(b):
        return False
    r = _lin_diff(a, b, w)
    if r is None and umin(a) >> (w - 1) and umin(b) >> (w - 1):
        r = _lin_diff(a, b, w, True)
    if r:
        if r[1] < 0:
            return True
        if r[0] >= 0:
            return False
    if is_c(b) and b == 1:
        return eq(a, 0, w)
    if is_c(a) and a == 0:
        return ne(b, 0, w)
    if isinstance(a, Node) and a.op == 'zext':
        x = a.args[0]
        if is_c(b) and b <= M(x.w):
            return ult(x, b, x.w)
        if isinstance(b, Node) and b.op == 'zext' and b.args[0].w == x.w:
            return ult(x, b.args[0], x.w)
    if is_c(a) and b.op == 'zext' and a <= M(b.args[0].w):
        return ult(a, b.args[0], b.args[0].w)
    if isinstance(a, Node) and a.op == 'ite' and is_c(b) and (is_c(a.args[1]) or is_c(a.args[2])):
        return bite(a.args[0], ult(a.args[1], b, w), ult(a.args[2], b, w))
    if isinstance(b, Node) and b.op == 'ite' and is_c(a) and (is_c(b.args[1]) or is_c(b.args[2])):
        return bite(b.args[0], ult(a, b.args[1], w), ult(a, b.args[2], w))
    r = _cmpshift(a, b, w)
    if r is not None:
        return ult(r[0], r[1], w)
    if is_c(b) and a.op == 'udiv' and is_c(a.args[1]) and a.args[1]:
        return ult(a.args[0], b * a.args[1], w) if b * a.args[1] <= M(w) else True
    if is_c(a) and b.op == 'udiv' and is_c(b.args[1]) and b.args[1]:
        k = (a + 1) * b.args[1]
        return ule(k, b.args[0], w) if k <= M(w) else False
    if isinstance(a, Node) and a.op == 'udiv' and is_c(a.args[1]) and a.args[1] and umax(b) * a.args[1] <= M(w):
        return ult(a.args[0], mul(b, a.args[1], w), w)
    if isinstance(a, Node) and a.op == 'sum' and isinstance(b, Node) and b.op in ('udiv', 'urem', 'sum', 'var'):
        # C - t < b  <=>  C < b + t when nothing wraps
        m = M(w)
        c, cf = a.p
        neg = [(t, m + 1 - k) for t, k in zip(a.args, cf)]
        if all(k <= 1000 for _, k in neg) and any(t.op in ('urem', 'udiv') for t, _ in neg):
            tot = sum(k * umax(t) for t, k in neg)
            if tot <= c and umax(b) + tot <= m:
                return ult(c, lin_combine(w, [(b, 1)] + neg), w)
    # x + c <u x-type with no wrap
    return mk('ult', (a, b), 0, w)


def _cmpshift(a, b, w):
    """cancel a common non-wrapping constant in unsigned comparisons (used for
    pointer comparisons base+x < base+y)"""
    ca = a if is_c(a) else (a.p[0] if a.op == 'sum' else 0)
    cb = b if is_c(b) else (b.p[0] if b.op == 'sum' else 0)
    if ca == 0 or cb == 0:
        return None
    if not (isinstance(a, Node) or isinstance(b, Node)):
        return None
    c = min(ca, cb)
    if c > M(w) >> 1:
        return None
    # a = c + a', b = c + b' ; valid if neither c+a' nor c+b' wraps, i.e. a>=c and b>=c as unsigned
    if umin(a) >= c and umin(b) >= c:
        a2 = sub(a, c, w)
        b2 = sub(b, c, w)
        return a2, b2
    return None


def ule(a, b, w):
    return lnot(ult(b, a, w))


def slt(a, b, w):
    if is_c(a) and is_c(b):
        return sgn(a, w) < sgn(b, w)
    if a is b:
        return False
    sb = 1 << (w - 1)
    if umax(a) < sb and umax(b) < sb:
        return ult(a, b, w)
    if umin(a) >= sb and umin(b) >= sb:
        return ult(a, b, w)
    if umax(a) < sb and umin(b) >= sb:
        return False
    r = _lin_diff(a, b, w, True)
    if r:
        if r[1] < 0:
            return True
        if r[0] >= 0:
            return False
    if umin(a) >= sb and umax(b) < sb:
        return True
    if isinstance(a, Node) and a.op == 'sext':
        x = a.args[0]
        if is_c(b):
            s = sgn(b, w)
            if -(1 << (x.w - 1)) <= s < (1 << (x.w - 1)):
                return slt(x, s & M(x.w), x.w)
        elif isinstance(b, Node) and b.op == 'sext' and b.args[0].w == x.w:
            return slt(x, b.args[0], x.w)
    if is_c(a) and b.op == 'sext':
        x = b.args[0]
        s = sgn(a, w)
        if -(1 << (x.w - 1)) <= s < (1 << (x.w - 1)):
            return slt(s & M(x.w), x, x.w)
    if isinstance(a, Node) and a.op == 'ite' and is_c(b) and (is_c(a.args[1]) or is_c(a.args[2])):
        return bite(a.args[0], slt(a.args[1], b, w), slt(a.args[2], b, w))
    if isinstance(b, Node) and b.op == 'ite' and is_c(a) and (is_c(b.args[1]) or is_c(b.args[2])):
        return bite(b.args[0], slt(a, b.args[1], w), slt(a, b.args[2], w))
    if is_c(b) and b == 0 and w > 1:
        return eq(extract(a, w - 1, 1), 1, 1)
    return mk('slt', (a, b), 0, w)


def sle(a, b, w):
    return lnot(slt(b, a, w))


def select(arr, off):
    """byte of symbolic array `arr` at 64-bit offset"""
    return mk('sel', (off,), 8, (arr,))


def uf(name, args, w):
    """uninterpreted function"""
    return mk('uf', args, w, (name, tuple([a.w if isinstance(a, Node) else None for a in args])))


# defining equations of ghost (recursive specification) functions: id of an
# application -> its one-step unfolding.  Added to every query that mentions it.
GHOST_DEFS = {}


def fp(op, args, w, p):
    return mk('fp', args, w, (op,) + p)


# ---------------------------------------------------------------- traversal
def reach(roots):
    seen = set()
    order = []
    stack = [(r, False) for r in roots if isinstance(r, Node)]
    while stack:
        n, done = stack.pop()
        if done:
            order.append(n)
            continue
        if n.id in seen:
            continue
        seen.add(n.id)
        stack.append((n, True))
        for a in n.args:
            if isinstance(a, Node) and a.id not in seen:
                stack.append((a, False))
    return order


# ---------------------------------------------------------------- substitution / evaluation
def subst(root, mp, memo=None):
    """replace nodes (by id) and rebuild through the simplifying constructors"""
    if not isinstance(root, Node):
        return root
    m = memo if memo is not None else {}
    for k, v in mp.items():
        m[k] = v

    def g(x):
        return m[x.id] if isinstance(x, Node) else x
    for n in reach_new([root], m):
        a = [g(x) for x in n.args]
        if all(x is y for x, y in zip(a, n.args)):
            m[n.id] = n
            continue
        op, w = n.op, n.w
        if op == 'sum':
            r = lin_combine(w, [(x, k) for x, k in zip(a, n.p[1])] + [(n.p[0], 1)])
        elif op in _B2:
            r = _B2[op](a[0], a[1], w)
        elif op == 'extract':
            r = (a[0] >> n.p) & M(w) if is_c(a[0]) else extract(a[0], n.p, w)
        elif op == 'zext':
            r = zext(a[0], n.args[0].w, w)
        elif op == 'sext':
            r = sext(a[0], n.args[0].w, w)
        elif op == 'concat':
            r = concat(a, list(n.p))
        elif op == 'ite':
            r = ite(a[0], a[1], a[2], w)
        elif op == 'b2v':
            r = b2v(a[0], w)
        elif op == 'bite':
            r = bite(a[0], a[1], a[2])
        elif op == 'not':
            r = lnot(a[0])
        elif op == 'land':
            r = land_all(a)
        elif op == 'lor':
            r = lor_all(a)
        elif op == 'beq':
            r = beq(a[0], a[1])
        elif op in ('eq', 'ult', 'ule', 'slt', 'sle'):
            r = {'eq': eq, 'ult': ult, 'ule': ule, 'slt': slt, 'sle': sle}[op](a[0], a[1], n.p)
        elif op == 'sel':
            r = select(n.p[0], a[0])
        elif op == 'uf':
            r = mk('uf', a, w, n.p)
        elif op == 'fp':
            r = mk('fp', a, w, n.p)
        else:
            raise Exception('subst ' + op)
        m[n.id] = r
    return m[root.id]


def evaluate(roots, env, arrays=None, ufs=None):
    """concrete evaluation. env: name->int/bool; arrays: name->(dict,default)"""
    val = {}

    def g(x):
        return val[x.id] if isinstance(x, Node) else x
    for n in reach(roots):
        op, a, w = n.op, n.args, n.w
        m = M(w) if w else 1
        if op == 'var' or op == 'bvar':
            v = env.get(n.p[0], 0)
            if op == 'bvar':
                v = bool(v)
        elif op == 'sum':
            v = n.p[0]
            for t, k in zip(a, n.p[1]):
                v += g(t) * k
            v &= m
        elif op == 'mul':
            v = g(a[0]) * g(a[1]) & m
        elif op == 'and':
            v = g(a[0]) & g(a[1])
        elif op == 'or':
            v = g(a[0]) | g(a[1])
        elif op == 'xor':
            v = g(a[0]) ^ g(a[1])
        elif op == 'shl':
            s = g(a[1])
            v = (g(a[0]) << s) & m if s < w else 0
        elif op == 'lshr':
            s = g(a[1])
            v = g(a[0]) >> s if s < w else 0
        elif op == 'ashr':
            s = min(g(a[1]), w - 1)
            v = (sgn(g(a[0]), w) >> s) & m
        elif op == 'udiv':
            v = g(a[0]) // g(a[1]) if g(a[1]) else m
        elif op == 'urem':
            v = g(a[0]) % g(a[1]) if g(a[1]) else g(a[0])
        elif op == 'sdiv':
            v = sdiv(g(a[0]), g(a[1]), w) if g(a[1]) else (m if sgn(g(a[0]), w) >= 0 else 1)
        elif op == 'srem':
            v = srem(g(a[0]), g(a[1]), w) if g(a[1]) else g(a[0])
        elif op == 'extract':
            v = (g(a[0]) >> n.p) & m
        elif op == 'zext':
            v = g(a[0])
        elif op == 'sext':
            v = sgn(g(a[0]), a[0].w) & m
        elif op == 'concat':
            v = 0
            for t, ww in zip(a, n.p):
                v = (v << ww) | g(t)
        elif op in ('ite', 'bite'):
            v = g(a[1]) if g(a[0]) else g(a[2])
        elif op == 'b2v':
            v = 1 if g(a[0]) else 0
        elif op == 'not':
            v = not g(a[0])
        elif op == 'land':
            v = all(g(x) for x in a)
        elif op == 'lor':
            v = any(g(x) for x in a)
        elif op == 'beq':
            v = g(a[0]) == g(a[1])
        elif op == 'eq':
            v = g(a[0]) == g(a[1])
        elif op == 'ult':
            v = g(a[0]) < g(a[1])
        elif op == 'ule':
            v = g(a[0]) <= g(a[1])
        elif op == 'slt':
            v = sgn(g(a[0]), n.p) < sgn(g(a[1]), n.p)
        elif op == 'sle':
            v = sgn(g(a[0]), n.p) <= sgn(g(a[1]), n.p)
        elif op == 'sel':
            d, de = (arrays or {}).get(n.p[0], ({}, 0))
            v = d.get(g(a[0]), de)
        elif op == 'uf':
            v = 0
        else:
            raise Exception('eval ' + op)
        val[n.id] = v
    return [g(r) for r in roots]


# ---------------------------------------------------------------- z3
class Z3Conv:
    def __init__(self, z3, div_axioms=True, ctx=None):
        self.z3 = z3
        self.m = {}
        self.axioms = []
        self.vars = {}
        self.arrays = {}
        self.divs = {}
        self.div_axioms = div_axioms
        self.ctx = ctx
        self.funcs = {}
        self.roots_cache = {}
        self.abstract = False

    def bv(self, x, w):
        if isinstance(x, Node):
            return self.m[x.id]
        return self.z3.BitVecVal(x, w, self.ctx)

    def b(self, x):
        if isinstance(x, Node):
            return self.m[x.id]
        return self.z3.BoolVal(bool(x), self.ctx)

    def conv(self, root):
        z3 = self.z3
        if not isinstance(root, Node):
            return self.b(root)
        gd = []
        for n in reach_new([root], self.m):
            self.m[n.id] = self._one(n)
            if n.op == 'uf' and n.id in GHOST_DEFS:
                gd.append(n)
        while gd:
            n = gd.pop()
            d = GHOST_DEFS[n.id]
            if isinstance(d, Node):
                for x in reach_new([d], self.m):
                    self.m[x.id] = self._one(x)
                    if x.op == 'uf' and x.id in GHOST_DEFS:
                        gd.append(x)
            self.axioms.append(self.m[n.id] == self.bv(d, n.w))
        return self.m[root.id]

    def _one(self, n):
        z3 = self.z3
        op, a, w = n.op, n.args, n.w
        if op == 'urem' and is_c(a[1]) and a[1]:
            q = udiv(a[0], a[1], w)
            for x in reach_new([q], self.m) if isinstance(q, Node) else ():
                self.m[x.id] = self._one(x)
            r = self.bv(a[0], w) - self.bv(a[1], w) * self.bv(q, w)
            if self.abstract:
                self.axioms.append(z3.ULE(r, self.bv(n.umax, w)))
            return r
        if self.abstract and op == 'udiv' and is_c(a[1]):
            r = z3.BitVec(f'h!{n.id}', w, self.ctx)
            self.axioms.append(z3.And(z3.ULE(self.bv(n.umin, w), r), z3.ULE(r, self.bv(n.umax, w))))
            return r
        if self.abstract and op in ('udiv', 'urem', 'sdiv', 'srem', 'mul', 'fp'):
            return z3.BitVec(f'h!{n.id}', w, self.ctx) if w else z3.Bool(f'h!{n.id}', self.ctx)
        if op == 'var':
            v = z3.BitVec(n.p[0], w, self.ctx)
            self.vars[n.p[0]] = v
            if len(n.p) > 1 and n.p[1] is not None:
                lo, hi = n.p[1]
                self.axioms.append(z3.And(z3.ULE(z3.BitVecVal(lo, w, self.ctx), v), z3.ULE(v, z3.BitVecVal(hi, w, self.ctx))))
            return v
        if op == 'bvar':
            v = z3.Bool(n.p[0], self.ctx)
            self.vars[n.p[0]] = v
            return v
        if op == 'sum':
            c, cf = n.p
            r = None
            m = M(w)
            for t, k in zip(a, cf):
                t = self.bv(t, w)
                if k == 1:
                    pass
                elif k == m:
                    t = -t
                elif k & (k - 1) == 0:
                    t = t << (k.bit_length() - 1)
                elif (-k & m) & ((-k & m) - 1) == 0:
                    t = -(t << ((-k & m).bit_length() - 1))
                else:
                    t = t * z3.BitVecVal(k, w, self.ctx)
                r = t if r is None else r + t
            if c:
                r = r + z3.BitVecVal(c, w, self.ctx)
            return r
        if op == 'mul':
            return self.bv(a[0], w) * self.bv(a[1], w)
        if op == 'and':
            return self.bv(a[0], w) & self.bv(a[1], w)
        if op == 'or':
            return self.bv(a[0], w) | self.bv(a[1], w)
        if op == 'xor':
            return self.bv(a[0], w) ^ self.bv(a[1], w)
        if op == 'shl':
            return self.bv(a[0], w) << self.bv(a[1], w)
        if op == 'lshr':
            return z3.LShR(self.bv(a[0], w), self.bv(a[1], w))
        if op == 'ashr':
            return self.bv(a[0], w) >> self.bv(a[1], w)
        if op == 'udiv':
            x, y = self.bv(a[0], w), self.bv(a[1], w)
            if self.div_axioms and is_c(a[1]) and a[1] > 1:
                q = z3.BitVec(f'q!{n.id}', w, self.ctx)
                c = a[1]
                qm = M(w) // c
                self.axioms.append(z3.ULE(q, z3.BitVecVal(qm, w, self.ctx)))
                r = x - q * y
                self.axioms.append(z3.ULT(r, y))
                self.axioms.append(z3.ULE(q * y, x))
                return q
            return z3.UDiv(x, y)
        if op == 'urem':
            return z3.URem(self.bv(a[0], w), self.bv(a[1], w))
        if op == 'sdiv':
            return self.bv(a[0], w) / self.bv(a[1], w)
        if op == 'srem':
            return z3.SRem(self.bv(a[0], w), self.bv(a[1], w))
        if op == 'extract':
            return z3.Extract(n.p + w - 1, n.p, self.bv(a[0], 0))
        if op == 'zext':
            return z3.ZeroExt(w - a[0].w, self.bv(a[0], 0))
        if op == 'sext':
            return z3.SignExt(w - a[0].w, self.bv(a[0], 0))
        if op == 'concat':
            return z3.Concat(*[self.bv(t, ww) for t, ww in zip(a, n.p)])
        if op == 'ite':
            return z3.If(self.b(a[0]), self.bv(a[1], w), self.bv(a[2], w))
        if op == 'b2v':
            return z3.If(self.b(a[0]), z3.BitVecVal(1, w, self.ctx), z3.BitVecVal(0, w, self.ctx))
        if op == 'bite':
            return z3.If(self.b(a[0]), self.b(a[1]), self.b(a[2]))
        if op == 'not':
            return z3.Not(self.b(a[0]))
        if op == 'land':
            return z3.And(*[self.b(x) for x in a])
        if op == 'lor':
            return z3.Or(*[self.b(x) for x in a])
        if op == 'beq':
            return self.b(a[0]) == self.b(a[1])
        if op == 'eq':
            return self.bv(a[0], n.p) == self.bv(a[1], n.p)
        if op == 'ult':
            return z3.ULT(self.bv(a[0], n.p), self.bv(a[1], n.p))
        if op == 'ule':
            return z3.ULE(self.bv(a[0], n.p), self.bv(a[1], n.p))
        if op == 'slt':
            return self.bv(a[0], n.p) < self.bv(a[1], n.p)
        if op == 'sle':
            return self.bv(a[0], n.p) <= self.bv(a[1], n.p)
        if op == 'sel':
            nm = n.p[0]
            ar = self.arrays.get(nm)
            if ar is None:
                ar = z3.Array(nm, z3.BitVecSort(64, self.ctx), z3.BitVecSort(8, self.ctx))
                self.arrays[nm] = ar
            return z3.Select(ar, self.bv(a[0], 64))
        if op == 'uf':
            nm, ws = n.p
            ws = [x if x is not None else 64 for x in ws]
            f = self.funcs.get(nm)
            if f is None:
                f = z3.Function(nm, *[z3.BitVecSort(x, self.ctx) for x in ws],
                                z3.BitVecSort(w, self.ctx) if w else z3.BoolSort(self.ctx))
                self.funcs[nm] = f
            return f(*[self.bv(x, ww) for x, ww in zip(a, ws)])
        if op == 'fp':
            return self._fp(n)
        raise Exception('conv ' + op)

    def _fp(self, n):
        z3 = self.z3
        o = n.p[0]
        fs = {32: z3.Float32(self.ctx), 64: z3.Float64(self.ctx)}
        rm = z3.RNE(self.ctx)
        if o == 'cmp':
            _, pred, w = n.p
            x = z3.fpBVToFP(self.bv(n.args[0], w), fs[w])
            y = z3.fpBVToFP(self.bv(n.args[1], w), fs[w])
            un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
            d = {'eq': z3.fpEQ(x, y), 'ne': z3.And(z3.Not(un), z3.Not(z3.fpEQ(x, y))), 'lt': z3.fpLT(x, y),
                 'le': z3.fpLEQ(x, y), 'gt': z3.fpGT(x, y), 'ge': z3.fpGEQ(x, y), 'rd': z3.Not(un), 'no': un}
            if pred == 'ord':
                return z3.Not(un)
            if pred == 'uno':
                return un
            r = d[pred[1:]]
            if pred[0] == 'u':
                r = z3.Or(un, r)
            return r
        raise Exception('fp ' + o)


def reach_new(roots, done):
    seen = set()
    order = []
    stack = [(r, False) for r in roots]
    while stack:
        n, d = stack.pop()
        if d:
            order.append(n)
            continue
        if n.id in seen or n.id in done:
            continue
        seen.add(n.id)
        stack.append((n, True))
        for a in n.args:
            if isinstance(a, Node) and a.id not in seen and a.id not in done:
                stack.append((a, False))
    return order


_B2 = {'mul': mul, 'and': band, 'or': bor, 'xor': bxor, 'shl': shl, 'lshr': lshr, 'ashr': ashr, 'udiv': udiv,
       'urem': urem, 'sdiv': sdiv, 'srem': srem}
