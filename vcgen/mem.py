"""Memory contents: cells at concrete offsets over a chain of symbolic updates."""
from terms import *

U64 = 64


class Ch:
    """chain node (immutable)"""
    __slots__ = ('k', 'a', 'id')
    cnt = 0

    def __init__(self, k, *a):
        self.k = k
        self.a = a
        Ch.cnt += 1
        self.id = Ch.cnt


ZERO = Ch('zero')


class Cont:
    """content of one object: `cells` maps concrete offset -> (nbytes, value)"""
    __slots__ = ('cells', 'base', '_fl', 'id')
    cnt = 0

    def __init__(self, cells, base):
        self.cells = cells
        self.base = base
        self._fl = None
        Cont.cnt += 1
        self.id = Cont.cnt

    def flushed(self):
        if not self.cells:
            return self.base
        if self._fl is None:
            self._fl = Ch('cells', self.cells, self.base)
        return self._fl


_rc = {}


def clear_cache():
    _rc.clear()


def tobytes(v, n):
    """value (8n bits) -> list of n byte terms (little endian)"""
    return [extract(v, 8 * i, 8) for i in range(n)]


def frombytes(bs):
    return concat(list(reversed(bs)), [8] * len(bs))


def read(c, off, n):
    """c: Cont. returns 8n-bit value"""
    if is_c(off):
        cell = c.cells.get(off)
        if cell is not None:
            if cell[0] == n:
                return cell[1]
            if cell[0] > n:
                return extract(cell[1], 0, 8 * n)
        if not c.cells:
            return chread(c.base, off, n)
        return _cellread(c.cells, c.base, off, n)
    return chread(c.flushed(), off, n)


def _cellread(cells, base, off, n):
    """concrete offset over a cells dict"""
    # fully inside a bigger cell, or assembled from several
    out = []
    pos = off
    end = off + n
    hit = False
    while pos < end:
        f = None
        for st in range(pos, pos - 64, -1):
            cell = cells.get(st)
            if cell is not None:
                if st + cell[0] > pos:
                    f = (st, cell)
                break
        if f is None:
            # gap: how far
            e = pos + 1
            while e < end and e not in cells:
                e += 1
            out.append((chread(base, pos, e - pos), (e - pos) * 8))
            pos = e
        else:
            st, cell = f
            e = min(end, st + cell[0])
            out.append((extract(cell[1], 8 * (pos - st), 8 * (e - pos)), 8 * (e - pos)))
            pos = e
    out.reverse()
    return concat([x for x, _ in out], [y for _, y in out])


def _mux_table(tab, off, lo, hi):
    """tab: list of byte terms for offsets lo..hi (inclusive); off symbolic within"""
    if lo == hi:
        return tab[lo]
    k = (hi).bit_length()
    bits = [eq(extract(off, j, 1), 1, 1) for j in range(k)]

    def rec(bit, base):
        if bit < 0:
            if base < lo or base > hi:
                return None
            return tab[base]
        h = base | (1 << bit)
        a = rec(bit - 1, base) if base <= hi else None
        b = rec(bit - 1, h) if h <= hi else None
        if a is None:
            return b
        if b is None:
            return a
        return ite(bits[bit], b, a, 8)
    return rec(k - 1, 0)


def chread(ch, off, n):
    key = (ch.id, off.id if isinstance(off, Node) else ('c', off), n)
    r = _rc.get(key)
    if r is None:
        r = _chread(ch, off, n)
        _rc[key] = r
    return r


def _bytewise(ch, off, n):
    return frombytes([chread(ch, add(off, j, 64), 1) for j in range(n)])


def _chread(ch, off, n):
    k = ch.k
    if k == 'zero':
        return 0
    if k == 'sym':
        return frombytes([select(ch.a[0], add(off, j, 64)) for j in range(n)])
    if k == 'bytes':
        b = ch.a[0]
        if is_c(off):
            return int.from_bytes((b[off:off + n] + bytes(n))[:n], 'little')
        if n > 1:
            return _bytewise(ch, off, n)
        lo = max(0, umin(off))
        hi = min(len(b) - 1, umax(off))
        if lo > hi:
            return 0
        return _mux_table(b, off, lo, hi)
    if k == 'cells':
        cells, base = ch.a
        if is_c(off):
            c = cells.get(off)
            if c is not None and c[0] == n:
                return c[1]
            return _cellread(cells, base, off, n)
        # aligned whole-cell match
        ks = [o for o in cells if o <= umax(off) + n and o + cells[o][0] > umin(off)]
        if not ks:
            return chread(base, off, n)
        if n > 1:
            al = all(cells[o][0] == n and o % n == 0 for o in ks) and n & (n - 1) == 0 and (kz(off, 64) & (n - 1)) == n - 1
            if al:
                r = None
                ks.sort()
                full = ks[0] <= umin(off) and ks[-1] >= umax(off) and len(ks) == (ks[-1] - ks[0]) // n + 1
                if not full:
                    r = chread(base, off, n)
                for o in reversed(ks):
                    v = cells[o][1]
                    r = v if r is None else ite(eq(off, o, 64), v, r, 8 * n)
                return r
            return _bytewise(ch, off, n)
        r = None
        bl = {}
        for o in ks:
            cn, v = cells[o]
            for j in range(cn):
                if umin(off) <= o + j <= umax(off):
                    bl[o + j] = extract(v, 8 * j, 8)
        if not bl:
            return chread(base, off, 1)
        lo, hi = min(bl), max(bl)
        full = lo <= umin(off) and hi >= umax(off) and len(bl) == hi - lo + 1
        if full and len(bl) > 4:
            return _mux_table(bl, off, lo, hi)
        if not full:
            r = chread(base, off, 1)
        for o in sorted(bl, reverse=True):
            r = bl[o] if r is None else ite(eq(off, o, 64), bl[o], r, 8)
        return r
    if k == 'W':
        prev, wo, wn, wv = ch.a
        d = sub(off, wo, 64)
        if is_c(d):
            sd = sgn(d, 64)
            if sd >= 0 and sd + n <= wn:
                return extract(wv, 8 * sd, 8 * n)
            if sd + n <= 0 or sd >= wn:
                return chread(prev, off, n)
            return _bytewise(ch, off, n)
        # range separation
        if umin(off) >= umax(wo) + wn or umin(wo) >= umax(off) + n:
            return chread(prev, off, n)
        if n == wn:
            if n == 1:
                return ite(eq(off, wo, 64), wv, chread(prev, off, 1), 8)
            if n & (n - 1) == 0 and (kz(d, 64) & (n - 1)) == n - 1:
                return ite(eq(off, wo, 64), wv, chread(prev, off, n), 8 * n)
        if n > 1:
            return _bytewise(ch, off, n)
        r = chread(prev, off, 1)
        for j in range(wn):
            r = ite(eq(off, add(wo, j, 64), 64), extract(wv, 8 * j, 8), r, 8)
        return r
    if k == 'C' or k == 'S':
        prev, do, ln = ch.a[0], ch.a[1], ch.a[2]
        d = sub(off, do, 64)
        if umin(off) >= umax(do) + umax(ln) and umax(do) + umax(ln) < (1 << 63):
            return chread(prev, off, n)
        if umax(off) + n <= umin(do):
            return chread(prev, off, n)
        if is_c(d) and sgn(d, 64) >= 0 and sgn(d, 64) + n <= umin(ln) or \
                (not is_c(d) and umax(d) + n <= umin(ln)):
            inside = True
        else:
            inside = ult(d, ln, 64) if n == 1 else None
        if inside is None:
            return _bytewise(ch, off, n)
        if inside is False:
            return chread(prev, off, n)
        if k == 'C':
            src, so = ch.a[3], ch.a[4]
            v = chread(src, add(so, d, 64), n)
        else:
            v = concat([ch.a[3]] * n, [8] * n)
        if inside is True:
            return v
        return ite(inside, v, chread(prev, off, n), 8 * n)
    if k == 'I':
        c, a, b = ch.a
        return ite(c, chread(a, off, n), chread(b, off, n), 8 * n)
    if k == 'F':
        # contents given by a Python function offset -> byte
        return frombytes([ch.a[0](add(off, j, 64)) for j in range(n)])
    raise Exception(k)


def write(c, off, n, v, size=None):
    if is_c(off):
        cells = dict(c.cells)
        # remove overlaps
        for st in range(off - 63, off + n):
            cell = cells.get(st)
            if cell is None:
                continue
            if st + cell[0] <= off or st >= off + n:
                continue
            if st == off and cell[0] == n:
                continue
            cn, cv = cell
            del cells[st]
            if st < off:
                k = off - st
                cells[st] = (k, extract(cv, 0, 8 * k))
            if st + cn > off + n:
                k = st + cn - off - n
                cells[off + n] = (k, extract(cv, 8 * (cn - k), 8 * k))
        cells[off] = (n, v)
        return Cont(cells, c.base)
    # symbolic offset in a small, fully celled region: conditional update per cell
    if c.cells and n == 1 and size is not None and is_c(size) and size <= 80:
        lo, hi = umin(off), min(umax(off), size - 1)
        cells = dict(c.cells)
        ok = all(cells.get(o, (0,))[0] == 1 for o in range(lo, hi + 1)) and hi - lo < 80
        if ok:
            for o in range(lo, hi + 1):
                cells[o] = (1, ite(eq(off, o, 64), v, cells[o][1], 8))
            return Cont(cells, c.base)
    return Cont({}, Ch('W', c.flushed(), off, n, v))


def merge(cond, c1, c2):
    if c1 is c2:
        return c1
    if c1.base is c2.base:
        base = c1.base
    else:
        # bases differ: fold the cells in only where needed
        base = Ch('I', cond, c1.base, c2.base)
    cells = {}
    if c1.cells == c2.cells:
        return Cont(c1.cells, base)
    offs = sorted(set(c1.cells) | set(c2.cells))
    pos = -1
    for o in offs:
        a = c1.cells.get(o)
        b = c2.cells.get(o)
        if a is not None and b is not None and a[0] == b[0]:
            if o < pos:
                # overlapped by an earlier, longer cell: handled bytewise below
                for j in range(a[0]):
                    if o + j >= pos:
                        cells[o + j] = (1, ite(cond, read(c1, o + j, 1), read(c2, o + j, 1), 8))
                pos = max(pos, o + a[0])
                continue
            if same(a[1], b[1]):
                cells[o] = a
            else:
                cells[o] = (a[0], ite(cond, a[1], b[1], 8 * a[0]))
            pos = max(pos, o + a[0])
        else:
            n = max(a[0] if a else 0, b[0] if b else 0)
            if o < pos:
                st, e = pos, o + n
            else:
                st, e = o, o + n
            if st >= e:
                continue
            # whole-cell when the next cell boundary does not interfere
            if st == o and not any((o < x < o + n) for x in offs):
                cells[o] = (n, ite(cond, read(c1, o, n), read(c2, o, n), 8 * n))
            else:
                for j in range(st, e):
                    cells[j] = (1, ite(cond, read(c1, j, 1), read(c2, j, 1), 8))
            pos = max(pos, e)
    return Cont(cells, base)
