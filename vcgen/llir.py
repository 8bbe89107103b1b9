"""Parser for the textual LLVM 18 IR emitted by clang (opaque pointers)."""
import re

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'w', 'n', 'el', 'fields', 'packed', 'name', '_sz', '_al', '_offs')

    def __init__(self, k, w=0, n=0, el=None, fields=None, packed=False, name=None):
        self.k = k
        self.w = w
        self.n = n
        self.el = el
        self.fields = fields
        self.packed = packed
        self.name = name
        self._sz = self._al = self._offs = None

    def __repr__(self):
        if self.k == 'int':
            return f'i{self.w}'
        if self.k == 'arr':
            return f'[{self.n} x {self.el}]'
        if self.k == 'vec':
            return f'<{self.n} x {self.el}>'
        if self.k == 'struct':
            return self.name or '{' + ','.join(map(repr, self.fields)) + '}'
        return self.k


VOID = Ty('void')
PTR = Ty('ptr', 64)
LABEL = Ty('label')
META = Ty('metadata')
_ints = {}


def I(w):
    if w not in _ints:
        _ints[w] = Ty('int', w)
    return _ints[w]


FLT = Ty('float', 32)
DBL = Ty('double', 64)
X80 = Ty('x86_fp80', 80)
F128 = Ty('fp128', 128)


def align_of(t):
    if t._al is None:
        if t.k == 'int':
            b = (t.w + 7) // 8
            p = 1
            while p < b:
                p *= 2
            t._al = min(p, 16)
        elif t.k == 'ptr':
            t._al = 8
        elif t.k == 'float':
            t._al = 4
        elif t.k == 'double':
            t._al = 8
        elif t.k in ('x86_fp80', 'fp128'):
            t._al = 16
        elif t.k == 'arr':
            t._al = align_of(t.el)
        elif t.k == 'vec':
            s = size_of(t)
            p = 1
            while p < s:
                p *= 2
            t._al = p
        elif t.k == 'struct':
            t._al = 1 if t.packed or not t.fields else max(align_of(f) for f in t.fields)
        else:
            t._al = 1
    return t._al


def size_of(t):
    if t._sz is None:
        if t.k == 'int':
            b = (t.w + 7) // 8
            a = align_of(t)
            t._sz = (b + a - 1) // a * a
        elif t.k == 'ptr':
            t._sz = 8
        elif t.k == 'float':
            t._sz = 4
        elif t.k == 'double':
            t._sz = 8
        elif t.k in ('x86_fp80', 'fp128'):
            t._sz = 16
        elif t.k == 'arr':
            t._sz = t.n * size_of(t.el)
        elif t.k == 'vec':
            t._sz = (t.n * bitw(t.el) + 7) // 8
        elif t.k == 'struct':
            offsets(t)
        else:
            t._sz = 0
    return t._sz


def bitw(t):
    if t.k == 'vec':
        return t.n * bitw(t.el)
    return t.w


def offsets(t):
    if t._offs is None:
        o = 0
        offs = []
        for f in t.fields:
            if not t.packed:
                a = align_of(f)
                o = (o + a - 1) // a * a
            offs.append(o)
            o += size_of(f)
        if not t.packed:
            a = align_of(t)
            o = (o + a - 1) // a * a
        t._offs = offs
        t._sz = o
    return t._offs


# ---------------------------------------------------------------- lexer
TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<cstr>c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
 | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:[-a-zA-Z$._0-9]+)?)
 | (?P<attr>\#[0-9]+)
 | (?P<comdat>\$(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<str>"[^"]*")
 | (?P<flt>[-+]?[0-9]+\.[0-9]*(?:[eE][-+]?[0-9]+)?)
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<int>-?[0-9]+)
 | (?P<ell>\.\.\.)
 | (?P<word>[a-zA-Z_][a-zA-Z_0-9.]*)
 | (?P<punct>[\[\]{}()<>,=*|:])
''', re.X)


class Toks:
    __slots__ = ('t', 'i')

    def __init__(self, s):
        out = []
        pos = 0
        n = len(s)
        while pos < n:
            if s[pos] == ';':
                break
            m = TOK.match(s, pos)
            if not m:
                raise Exception('lex error: ' + s[pos:pos + 60])
            k = m.lastgroup
            if k != 'ws':
                out.append((k, m.group()))
            pos = m.end()
        self.t = out
        self.i = 0

    def peek(self, o=0):
        j = self.i + o
        return self.t[j] if j < len(self.t) else ('eof', '')

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def acc(self, s):
        if self.peek()[1] == s and self.peek()[0] not in ('str', 'cstr'):
            self.i += 1
            return True
        return False

    def exp(self, s):
        x = self.next()
        if x[1] != s:
            raise Exception(f'expected {s} got {x} at {self.i} in {" ".join(z[1] for z in self.t)[:300]}')

    def eof(self):
        return self.i >= len(self.t)


class Val:
    """operand: k in 'reg','glob','int','null','undef','zero','agg','bytes','fp','ce','meta'"""
    __slots__ = ('k', 'v', 't')

    def __init__(self, k, v, t):
        self.k = k
        self.v = v
        self.t = t

    def __repr__(self):
        return f'{self.t} {self.k}:{self.v}'


class Instr:
    __slots__ = ('op', 'res', 't', 'a', 'x', 'dbg', 'line')

    def __init__(self, op, res=None, t=None, a=(), x=None):
        self.op = op
        self.res = res
        self.t = t
        self.a = a
        self.x = x
        self.dbg = None
        self.line = None


class Block:
    __slots__ = ('name', 'ins', 'succs', 'phis')

    def __init__(self, name):
        self.name = name
        self.ins = []
        self.phis = []
        self.succs = []


class Func:
    def __init__(self, name, ret, params, vararg):
        self.name = name
        self.ret = ret
        self.params = params  # list of (type, name, attrs)
        self.vararg = vararg
        self.blocks = {}
        self.order = []
        self.decl = True
        self.an = None


PATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly', 'signext', 'zeroext',
          'returned', 'immarg', 'nofree', 'inreg', 'nest', 'swiftself', 'allocptr', 'writable', 'dead_on_unwind',
          'noext', 'allocalign', 'nofpclass'}
PATTRS_P = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'preallocated',
            'inalloca', 'byref', 'nofpclass', 'memory', 'range', 'initializes'}


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.aliases = {}
        self.meta = {}

    # ---- types
    def ty(self, tk):
        k, s = tk.next()
        if k == 'word':
            if s == 'ptr':
                t = PTR
                if tk.peek()[1] == 'addrspace':
                    raise Exception('addrspace')
            elif s == 'void':
                t = VOID
            elif re.fullmatch(r'i\d+', s):
                t = I(int(s[1:]))
            elif s == 'float':
                t = FLT
            elif s == 'double':
                t = DBL
            elif s == 'x86_fp80':
                t = X80
            elif s == 'fp128':
                t = F128
            elif s == 'label':
                t = LABEL
            elif s == 'metadata':
                t = META
            elif s == 'opaque':
                t = Ty('struct', fields=[], name='opaque')
            elif s == 'half':
                t = Ty('half', 16)
            elif s == 'token':
                t = Ty('token')
            else:
                raise Exception('type word ' + s)
        elif k == 'loc':
            t = self.named(s)
        elif s == '[':
            n = int(tk.next()[1])
            tk.exp('x')
            el = self.ty(tk)
            tk.exp(']')
            t = Ty('arr', n=n, el=el)
        elif s == '<':
            if tk.peek()[1] == '{':
                tk.next()
                t = self._struct(tk, True)
                tk.exp('>')
            else:
                n = int(tk.next()[1])
                tk.exp('x')
                el = self.ty(tk)
                tk.exp('>')
                t = Ty('vec', n=n, el=el)
        elif s == '{':
            t = self._struct(tk, False)
        else:
            raise Exception(f'type? {k} {s}')
        # function type
        while tk.peek()[1] == '(' and tk.peek()[0] == 'punct':
            # function type `T (args)`
            tk.next()
            depth = 1
            va = False
            ps = []
            while depth:
                kk, x = tk.next()
                if x == '(':
                    depth += 1
                elif x == ')':
                    depth -= 1
                elif x == '...':
                    va = True
            t = Ty('fn', el=t)
            t.packed = va
        return t

    def _struct(self, tk, packed):
        fs = []
        if tk.acc('}'):
            return Ty('struct', fields=fs, packed=packed)
        while True:
            fs.append(self.ty(tk))
            if tk.acc('}'):
                break
            tk.exp(',')
        return Ty('struct', fields=fs, packed=packed)

    def named(self, s):
        t = self.types.get(s)
        if t is None:
            t = Ty('struct', fields=None, name=s)
            self.types[s] = t
        return t

    # ---- values
    def val(self, tk, t):
        k, s = tk.next()
        if k == 'loc':
            return Val('reg', s, t)
        if k == 'glob':
            return Val('glob', s, t)
        if k == 'int':
            v = int(s)
            if t.k in ('float', 'double'):
                raise Exception('int for fp')
            return Val('int', v & ((1 << t.w) - 1), t)
        if k == 'word':
            if s == 'true':
                return Val('int', 1, t)
            if s == 'false':
                return Val('int', 0, t)
            if s == 'null':
                return Val('null', 0, t)
            if s in ('undef', 'poison'):
                return Val('undef', 0, t)
            if s == 'zeroinitializer':
                return Val('zero', 0, t)
            if s == 'none':
                return Val('zero', 0, t)
            if s == 'getelementptr':
                return self.ce_gep(tk, t)
            if s in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                tk.exp('(')
                t1 = self.ty(tk)
                v = self.val(tk, t1)
                tk.exp('to')
                t2 = self.ty(tk)
                tk.exp(')')
                return Val('ce', (s, v, t2), t)
            if s in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                while tk.peek()[1] in ('nuw', 'nsw', 'exact'):
                    tk.next()
                tk.exp('(')
                t1 = self.ty(tk)
                a = self.val(tk, t1)
                tk.exp(',')
                t2 = self.ty(tk)
                b = self.val(tk, t2)
                tk.exp(')')
                return Val('ce', (s, a, b), t)
            if s in ('icmp',):
                pred = tk.next()[1]
                tk.exp('(')
                t1 = self.ty(tk)
                a = self.val(tk, t1)
                tk.exp(',')
                t2 = self.ty(tk)
                b = self.val(tk, t2)
                tk.exp(')')
                return Val('ce', ('icmp', pred, a, b), t)
            if s == 'dso_local_equivalent' or s == 'no_cfi':
                return self.val(tk, t)
            raise Exception('value word ' + s)
        if k == 'cstr':
            body = s[2:-1]
            out = bytearray()
            i = 0
            while i < len(body):
                c = body[i]
                if c == '\\':
                    if body[i + 1] == '\\':
                        out.append(0x5c)
                        i += 2
                    else:
                        out.append(int(body[i + 1:i + 3], 16))
                        i += 3
                else:
                    out.append(ord(c))
                    i += 1
            return Val('bytes', bytes(out), t)
        if k == 'flt':
            import struct
            f = float(s)
            if t.k == 'float':
                return Val('int', struct.unpack('<I', struct.pack('<f', f))[0], t)
            return Val('int', struct.unpack('<Q', struct.pack('<d', f))[0], t)
        if k == 'hex':
            if s[2] in 'KLMHR':
                return Val('int', int(s[3:], 16), t)
            v = int(s, 16)
            if t.k == 'float':
                import struct
                f = struct.unpack('<d', struct.pack('<Q', v))[0]
                v = struct.unpack('<I', struct.pack('<f', f))[0]
            return Val('int', v, t)
        if s == '[' or s == '{' or s == '<':
            close = {'[': ']', '{': '}', '<': '>'}[s]
            if s == '<' and tk.peek()[1] == '{':
                tk.next()
                close = '}'
                packed = True
            else:
                packed = False
            els = []
            if not tk.acc(close):
                while True:
                    t1 = self.ty(tk)
                    els.append(self.val(tk, t1))
                    if tk.acc(close):
                        break
                    tk.exp(',')
            if packed:
                tk.exp('>')
            return Val('agg', els, t)
        if k == 'meta':
            return Val('meta', s, t)
        raise Exception(f'value {k} {s}')

    def ce_gep(self, tk, t):
        while tk.peek()[1] in ('inbounds', 'nuw', 'nusw', 'inrange'):
            tk.next()
            if tk.peek()[1] == '(' and tk.peek(-1)[1] == 'inrange':
                while tk.next()[1] != ')':
                    pass
        tk.exp('(')
        src = self.ty(tk)
        tk.exp(',')
        args = []
        while True:
            while tk.peek()[1] == 'inrange':
                tk.next()
            t1 = self.ty(tk)
            args.append(self.val(tk, t1))
            if tk.acc(')'):
                break
            tk.exp(',')
        return Val('ce', ('gep', src, args), t)

    def skip_pattrs(self, tk):
        attrs = {}
        while True:
            k, s = tk.peek()
            if k == 'word' and s in PATTRS and tk.peek(1)[1] != '(':
                attrs[s] = True
                tk.next()
            elif k == 'word' and s in PATTRS_P:
                tk.next()
                if tk.peek()[1] == '(':
                    tk.next()
                    d = 1
                    inner = []
                    save = tk.i
                    while d:
                        x = tk.next()[1]
                        if x == '(':
                            d += 1
                        elif x == ')':
                            d -= 1
                    if s in ('sret', 'byval'):
                        e = tk.i
                        tk.i = save
                        attrs[s] = self.ty(tk)
                        tk.i = e
                    else:
                        attrs[s] = True
                else:
                    tk.next()
            elif k == 'str':
                tk.next()
                if tk.acc('='):
                    tk.next()
            else:
                return attrs

    # ---- module
    def parse(self, text):
        lines = text.split('\n')
        n = len(lines)
        i = 0
        fns = []
        glob = []
        while i < n:
            l = lines[i]
            if not l or l[0] == ';':
                i += 1
                continue
            if l[0] == '%':
                # type def
                m = re.match(r'(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = type (.*)$', l)
                if m:
                    nm, rest = m.groups()
                    tk = Toks(rest)
                    d = self.ty(tk)
                    t = self.named(nm)
                    t.fields = d.fields if d.fields is not None else d.fields
                    t.packed = d.packed
                i += 1
                continue
            if l[0] == '@':
                glob.append(l)
                i += 1
                continue
            if l.startswith('define '):
                hdr = l
                j = i + 1
                body = []
                while lines[j] != '}':
                    body.append(lines[j])
                    j += 1
                fns.append((hdr, body))
                i = j + 1
                continue
            if l.startswith('declare '):
                fns.append((l, None))
                i += 1
                continue
            if l[0] == '!':
                m = re.match(r'(!\d+) = (.*)$', l)
                if m:
                    self.meta[m.group(1)] = m.group(2)
            i += 1
        for l in glob:
            self.parse_global(l)
        for h, b in fns:
            self.parse_func(h, b)
        return self

    LINK = {'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending', 'extern_weak',
            'linkonce_odr', 'weak_odr', 'external', 'dso_local', 'dso_preemptable', 'hidden', 'protected', 'default',
            'unnamed_addr', 'local_unnamed_addr', 'externally_initialized', 'thread_local', 'dllimport', 'dllexport'}

    def parse_global(self, l):
        tk = Toks(l)
        nm = tk.next()[1]
        tk.exp('=')
        ext = False
        while tk.peek()[1] in self.LINK:
            w = tk.next()[1]
            if w in ('external', 'extern_weak'):
                ext = True
            if tk.peek()[1] == '(':
                while tk.next()[1] != ')':
                    pass
        w = tk.next()[1]
        if w == 'alias':
            self.ty(tk)
            tk.exp(',')
            t1 = self.ty(tk)
            v = self.val(tk, t1)
            self.aliases[nm] = v
            return
        if w == 'ifunc':
            return
        const = (w == 'constant')
        t = self.ty(tk)
        init = None
        if not ext and not tk.eof() and tk.peek()[1] != ',':
            init = self.val(tk, t)
        self.globals[nm] = (t, init, const, ext)

    def parse_func(self, hdr, body):
        # attributes after ')' may contain personality etc.
        tk = Toks(hdr.rstrip('{ '))
        tk.next()
        while True:
            k, s = tk.peek()
            if s in self.LINK or s in ('fastcc', 'coldcc', 'ccc', 'tailcc'):
                tk.next()
                if tk.peek()[1] == '(' and s == 'thread_local':
                    while tk.next()[1] != ')':
                        pass
            elif s in PATTRS or s in PATTRS_P:
                self.skip_pattrs(tk)
            elif k == 'meta':
                tk.next()
                tk.next()
            else:
                break
        # return type: careful with fn-type ambiguity: `void @f(` -> ty() stops at glob
        ret = self.ty(tk)
        nm = tk.next()[1]
        tk.exp('(')
        params = []
        vararg = False
        if not tk.acc(')'):
            while True:
                if tk.acc('...'):
                    vararg = True
                    tk.exp(')')
                    break
                t = self.ty(tk)
                at = self.skip_pattrs(tk)
                pn = None
                if tk.peek()[0] == 'loc':
                    pn = tk.next()[1]
                params.append((t, pn, at))
                if tk.acc(')'):
                    break
                tk.exp(',')
        f = Func(nm, ret, params, vararg)
        idx = 0
        for j, (t, pn, at) in enumerate(params):
            if pn is None:
                params[j] = (t, f'%{idx}', at)
                idx += 1
            elif re.fullmatch(r'%\d+', pn):
                idx = int(pn[1:]) + 1
        if body is None:
            if nm not in self.funcs:
                self.funcs[nm] = f
            return
        f.decl = False
        f.body_text = body
        f.nextid = idx
        f.parsed = False
        self.funcs[nm] = f

    def ensure(self, f):
        if f.decl or f.parsed:
            return f
        f.parsed = True
        body = f.body_text
        cur = None
        first = True
        i = 0
        n = len(body)
        while i < n:
            l = body[i]
            i += 1
            if not l.strip():
                continue
            if not l.startswith(' '):
                m = re.match(r'((?:"[^"]*"|[-a-zA-Z$._0-9]+)):', l)
                if m:
                    nmb = '%' + m.group(1)
                    cur = Block(nmb)
                    f.blocks[nmb] = cur
                    f.order.append(nmb)
                    first = False
                continue
            if cur is None:
                nmb = f'%{f.nextid}'
                cur = Block(nmb)
                f.blocks[nmb] = cur
                f.order.append(nmb)
            s = l.strip()
            if s.startswith('switch '):
                if not s.rstrip().endswith(']') and '[' in s and ']' not in s.split('[')[-1]:
                    while True:
                        x = body[i].strip()
                        i += 1
                        s += ' ' + x
                        if x.startswith(']'):
                            break
            elif re.match(r'(%\S+ = )?invoke ', s):
                s += ' ' + body[i].strip()
                i += 1
            elif ' landingpad ' in s or s.startswith('landingpad'):
                while i < n and re.match(r'\s+(cleanup|catch|filter)\b', body[i]):
                    s += ' ' + body[i].strip()
                    i += 1
            ins = self.parse_instr(s)
            if ins is None:
                continue
            ins.line = s
            if ins.op == 'phi':
                cur.phis.append(ins)
            else:
                cur.ins.append(ins)
            if ins.op == 'br':
                cur.succs = list(ins.x)
            elif ins.op == 'switch':
                cur.succs = [ins.x[0]] + [d for _, d in ins.x[1]]
            elif ins.op == 'invoke':
                cur.succs = [ins.x['normal'], ins.x['unwind']]
        return f

    def tv(self, tk):
        t = self.ty(tk)
        self.skip_pattrs(tk)
        return self.val(tk, t)

    def parse_instr(self, s):
        dbg = None
        m = re.search(r', !dbg (!\d+)', s)
        if m:
            dbg = m.group(1)
        # strip trailing metadata
        s2 = re.sub(r'(, ![a-zA-Z_.]+ !\d+)+$', '', s)
        s2 = re.sub(r'(, ![a-zA-Z_.]+ ![-a-zA-Z0-9{}]+)+$', '', s2)
        if 'call void @llvm.dbg.' in s2 or 'call void @llvm.lifetime.' in s2 or '@llvm.experimental.noalias' in s2:
            return None
        tk = Toks(s2)
        res = None
        if tk.peek()[0] == 'loc' and tk.peek(1)[1] == '=':
            res = tk.next()[1]
            tk.next()
        op = tk.next()[1]
        while op in ('tail', 'musttail', 'notail'):
            op = tk.next()[1]
        r = self._instr(op, res, tk)
        r.dbg = dbg
        return r

    BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'fadd',
           'fsub', 'fmul', 'fdiv', 'frem'}
    FLAGS = {'nuw', 'nsw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'disjoint',
             'nneg', 'samesign'}
    CAST = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'fptoui', 'fptosi', 'uitofp', 'sitofp',
            'fptrunc', 'fpext', 'addrspacecast'}

    def _instr(self, op, res, tk):
        if op in self.BIN:
            fl = set()
            while tk.peek()[1] in self.FLAGS:
                fl.add(tk.next()[1])
            t = self.ty(tk)
            a = self.val(tk, t)
            tk.exp(',')
            b = self.val(tk, t)
            return Instr(op, res, t, (a, b), fl)
        if op in self.CAST:
            while tk.peek()[1] in self.FLAGS:
                tk.next()
            a = self.tv(tk)
            tk.exp('to')
            t = self.ty(tk)
            return Instr(op, res, t, (a,))
        if op in ('icmp', 'fcmp'):
            while tk.peek()[1] in self.FLAGS:
                tk.next()
            pred = tk.next()[1]
            t = self.ty(tk)
            a = self.val(tk, t)
            tk.exp(',')
            b = self.val(tk, t)
            return Instr(op, res, t, (a, b), pred)
        if op == 'fneg':
            while tk.peek()[1] in self.FLAGS:
                tk.next()
            a = self.tv(tk)
            return Instr(op, res, a.t, (a,))
        if op == 'phi':
            while tk.peek()[1] in self.FLAGS:
                tk.next()
            t = self.ty(tk)
            inc = []
            while True:
                tk.exp('[')
                v = self.val(tk, t)
                tk.exp(',')
                b = tk.next()[1]
                tk.exp(']')
                inc.append((v, b))
                if not tk.acc(','):
                    break
                if tk.peek()[0] == 'meta':
                    break
            return Instr(op, res, t, (), inc)
        if op == 'select':
            while tk.peek()[1] in self.FLAGS:
                tk.next()
            c = self.tv(tk)
            tk.exp(',')
            a = self.tv(tk)
            tk.exp(',')
            b = self.tv(tk)
            return Instr(op, res, a.t, (c, a, b))
        if op == 'freeze':
            a = self.tv(tk)
            return Instr(op, res, a.t, (a,))
        if op == 'alloca':
            tk.acc('inalloca')
            t = self.ty(tk)
            n = None
            if tk.acc(','):
                if tk.peek()[1] != 'align':
                    n = self.tv(tk)
            return Instr(op, res, t, (n,) if n else ())
        if op == 'load':
            at = tk.acc('atomic')
            tk.acc('volatile')
            t = self.ty(tk)
            tk.exp(',')
            p = self.tv(tk)
            return Instr(op, res, t, (p,))
        if op == 'store':
            tk.acc('atomic')
            tk.acc('volatile')
            v = self.tv(tk)
            tk.exp(',')
            p = self.tv(tk)
            return Instr(op, None, v.t, (v, p))
        if op == 'getelementptr':
            while tk.peek()[1] in ('inbounds', 'nuw', 'nusw'):
                tk.next()
            t = self.ty(tk)
            args = []
            while tk.acc(','):
                if tk.peek()[0] == 'meta':
                    break
                args.append(self.tv(tk))
            return Instr(op, res, PTR, tuple(args), t)
        if op in ('extractvalue', 'insertvalue'):
            a = self.tv(tk)
            args = [a]
            if op == 'insertvalue':
                tk.exp(',')
                args.append(self.tv(tk))
            idx = []
            while tk.acc(','):
                if tk.peek()[0] == 'meta':
                    break
                idx.append(int(tk.next()[1]))
            return Instr(op, res, a.t, tuple(args), idx)
        if op in ('extractelement', 'insertelement', 'shufflevector'):
            args = [self.tv(tk)]
            while tk.acc(','):
                args.append(self.tv(tk))
            return Instr(op, res, args[0].t, tuple(args))
        if op == 'ret':
            t = self.ty(tk)
            if t is VOID:
                return Instr(op, None, t, ())
            return Instr(op, None, t, (self.val(tk, t),))
        if op == 'br':
            t = self.ty(tk)
            if t is LABEL:
                return Instr(op, None, None, (), [tk.next()[1]])
            c = self.val(tk, t)
            tk.exp(',')
            tk.exp('label')
            a = tk.next()[1]
            tk.exp(',')
            tk.exp('label')
            b = tk.next()[1]
            return Instr(op, None, None, (c,), [a, b])
        if op == 'switch':
            t = self.ty(tk)
            c = self.val(tk, t)
            tk.exp(',')
            tk.exp('label')
            d = tk.next()[1]
            tk.exp('[')
            cases = []
            while not tk.acc(']'):
                t1 = self.ty(tk)
                v = self.val(tk, t1)
                tk.exp(',')
                tk.exp('label')
                cases.append((v.v, tk.next()[1]))
            return Instr(op, None, t, (c,), (d, cases))
        if op == 'unreachable':
            return Instr(op)
        if op == 'resume':
            return Instr(op, None, None, (self.tv(tk),))
        if op == 'landingpad':
            t = self.ty(tk)
            cl = []
            while not tk.eof():
                w = tk.next()[1]
                if w == 'cleanup':
                    cl.append(('cleanup', None))
                elif w in ('catch', 'filter'):
                    t1 = self.ty(tk)
                    cl.append((w, self.val(tk, t1)))
                else:
                    break
            return Instr(op, res, t, (), cl)
        if op in ('call', 'invoke'):
            while True:
                k, s = tk.peek()
                if s in ('fastcc', 'coldcc', 'ccc', 'tailcc') or s in self.FLAGS:
                    tk.next()
                elif s in PATTRS or s in PATTRS_P:
                    self.skip_pattrs(tk)
                else:
                    break
            t = self.ty(tk)
            va = False
            if t.k == 'fn':
                t = t.el
            fnv = self.val(tk, PTR)
            tk.exp('(')
            args = []
            if not tk.acc(')'):
                while True:
                    ta = self.ty(tk)
                    at = self.skip_pattrs(tk)
                    v = self.val(tk, ta)
                    if 'byval' in at:
                        v = Val('byval', (v, at['byval']), ta)
                    args.append(v)
                    if tk.acc(')'):
                        break
                    tk.exp(',')
            x = {'fn': fnv}
            if op == 'invoke':
                while tk.peek()[1] != 'to':
                    tk.next()
                tk.exp('to')
                tk.exp('label')
                x['normal'] = tk.next()[1]
                tk.exp('unwind')
                tk.exp('label')
                x['unwind'] = tk.next()[1]
            return Instr(op, res, t, tuple(args), x)
        if op == 'fence':
            return Instr('nop')
        if op in ('atomicrmw',):
            tk.acc('volatile')
            o = tk.next()[1]
            p = self.tv(tk)
            tk.exp(',')
            v = self.tv(tk)
            return Instr(op, res, v.t, (p, v), o)
        if op == 'cmpxchg':
            tk.acc('weak')
            tk.acc('volatile')
            p = self.tv(tk)
            tk.exp(',')
            a = self.tv(tk)
            tk.exp(',')
            b = self.tv(tk)
            return Instr(op, res, Ty('struct', fields=[a.t, I(1)]), (p, a, b))
        raise Exception('instr ' + op)

    # ---- debug locations
    def loc(self, dbg):
        if not dbg or dbg not in self.meta:
            return None
        d = self.meta[dbg]
        m = re.search(r'line: (\d+)', d)
        s = re.search(r'scope: (!\d+)', d)
        line = int(m.group(1)) if m else 0
        f = None
        fn = None
        sc = s.group(1) if s else None
        seen = 0
        while sc and seen < 30:
            seen += 1
            x = self.meta.get(sc, '')
            if fn is None:
                q = re.search(r'DISubprogram\(name: "([^"]*)"', x)
                if q:
                    fn = q.group(1)
            q = re.search(r'file: (!\d+)', x)
            if q and f is None:
                y = self.meta.get(q.group(1), '')
                z = re.search(r'filename: "([^"]*)"', y)
                if z:
                    f = z.group(1)
            if fn is not None and f is not None:
                break
            q = re.search(r'scope: (!\d+)', x)
            sc = q.group(1) if q else None
        return (f, line, fn)


# ---------------------------------------------------------------- CFG analysis
class Loop:
    def __init__(self, header):
        self.header = header
        self.blocks = set()
        self.children = []
        self.parent = None


def analyze(f):
    """dominators, natural loops, per-region topological orders, liveness"""
    if f.an is not None:
        return f.an
    blocks = f.blocks
    entry = f.order[0]
    # RPO
    seen = set()
    post = []
    stack = [(entry, iter(blocks[entry].succs))]
    seen.add(entry)
    while stack:
        b, it = stack[-1]
        adv = False
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(blocks[s].succs)))
                adv = True
                break
        if not adv:
            post.append(b)
            stack.pop()
    rpo = post[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in dict.fromkeys(blocks[b].succs):
            preds[s].append(b)
    idom = {entry: entry}
    changed = True
    while changed:
        changed = False
        for b in rpo[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                changed = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == entry:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in blocks[b].succs:
            if num[s] <= num[b]:
                if not dom(s, b):
                    raise Exception('irreducible control flow in ' + f.name)
                L = loops.get(s)
                if L is None:
                    L = loops[s] = Loop(s)
                    L.blocks.add(s)
                st = [b]
                while st:
                    x = st.pop()
                    if x not in L.blocks:
                        L.blocks.add(x)
                        st.extend(preds[x])
    ls = sorted(loops.values(), key=lambda l: len(l.blocks))
    inner = {}
    for i, l in enumerate(ls):
        for m in ls[i + 1:]:
            if l.header in m.blocks and m is not l:
                l.parent = m
                m.children.append(l)
                break
    inner_of = {}
    for l in ls:
        for b in l.blocks:
            if b not in inner_of:
                inner_of[b] = l

    def order(region_blocks, region_loop):
        # nodes: blocks directly in region, or child loops collapsed
        rep = {}
        for b in region_blocks:
            l = inner_of.get(b)
            # climb to the loop whose parent is region_loop
            if l is region_loop or l is None:
                rep[b] = b
            else:
                while l.parent is not region_loop:
                    l = l.parent
                rep[b] = ('L', l.header)
        head = region_loop.header if region_loop else entry
        out = []
        vis = set()
        # DFS on collapsed graph
        members = {}
        for b in region_blocks:
            members.setdefault(rep[b], []).append(b)

        def succs(r):
            o = []
            for b in sorted(members[r], key=lambda z: num[z]):
                for s in blocks[b].succs:
                    if s in region_blocks and s != head or (s == head and False):
                        if rep[s] != r:
                            o.append(rep[s])
            return o
        st = [(rep[head], iter(succs(rep[head])))]
        vis.add(rep[head])
        while st:
            r, it = st[-1]
            adv = False
            for s in it:
                if s not in vis:
                    vis.add(s)
                    st.append((s, iter(succs(s))))
                    adv = True
                    break
            if not adv:
                out.append(r)
                st.pop()
        return out[::-1]
    orders = {None: order(set(rpo), None)}
    for l in ls:
        orders[l.header] = order(l.blocks, l)
    # liveness (registers live-in per block; phi uses count at predecessor edges)
    use = {}
    defs = {}
    phiuse = {b: set() for b in rpo}

    def regs(v, out):
        if v is None:
            return
        if v.k == 'reg':
            out.add(v.v)
        elif v.k == 'agg':
            for e in v.v:
                regs(e, out)
        elif v.k == 'byval':
            regs(v.v[0], out)
    for b in rpo:
        u = set()
        d = set()
        for p in blocks[b].phis:
            d.add(p.res)
            for v, pb in p.x:
                if v.k == 'reg' and pb in phiuse:
                    phiuse[pb].add(v.v)
        for ins in blocks[b].ins:
            r = set()
            for v in ins.a:
                regs(v, r)
            if ins.op in ('call', 'invoke'):
                regs(ins.x['fn'], r)
            u |= (r - d)
            if ins.res:
                d.add(ins.res)
        use[b] = u
        defs[b] = d
    livein = {b: set() for b in rpo}
    changed = True
    while changed:
        changed = False
        for b in reversed(rpo):
            out = set(phiuse[b])
            for s in blocks[b].succs:
                out |= livein[s]
            li = use[b] | (out - defs[b])
            if li != livein[b]:
                livein[b] = li
                changed = True
    f.an = {'entry': entry, 'orders': orders, 'loops': loops, 'livein': livein, 'preds': preds, 'rpo': rpo}
    return f.an
