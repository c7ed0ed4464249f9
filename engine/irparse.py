"""Reader for the textual LLVM IR that rustc emits.

A Module indexes the globals, named types and function bodies of one or more .ll files; function
bodies are parsed on first use. Nothing here knows about symbolic values: instructions come out as
small tuples that engine.compile turns into Python code.
"""
import re
import struct

TOK = re.compile(r'''
    c"(?:[^"\\]|\\.)*"            # string constants (after c)
  | @"(?:[^"\\]|\\.)*" | %"(?:[^"\\]|\\.)*" | \#?"(?:[^"\\]|\\.)*"
  | [@%][-\w.$]+
  | ![-\w.]* | \#\d+
  | <\{ | \}>
  | \.\.\.
  | f0x[0-9A-Fa-f]+ | 0x[HKLMR]?[0-9A-Fa-f]+
  | [-+]?\d+\.\d*(?:[eE][-+]?\d+)? | [-+]?\d+
  | [-\w.$]+
  | [\[\]{}()<>,=*:|]
''', re.X)


def tokenize(s):
    return TOK.findall(s)


# ---- types -------------------------------------------------------------------------------------
# ('i',w) ('f',16|32|64) ('ptr',) ('vec',n,t) ('arr',n,t) ('st',(t..),packed) ('void',) ('x',name)

I1, I8, I16, I32, I64 = ('i', 1), ('i', 8), ('i', 16), ('i', 32), ('i', 64)
PTR = ('ptr',)
VOID = ('void',)


class ParseError(Exception):
    pass


class Module:
    def __init__(self):
        self.types = {}      # name -> type or raw string
        self.globals = {}    # name -> dict(line=..)
        self.funcs = {}      # name -> (file index, start line, end line, header)
        self.decls = {}
        self.texts = []
        self._parsed = {}
        self.attrs = {}
        self.feats = {}       # (file, attribute group) -> enabled target features

    def add_file(self, path):
        with open(path) as f:
            lines = f.read().split('\n')
        fi = len(self.texts)
        self.texts.append(lines)
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if not ln:
                i += 1
                continue
            c = ln[0]
            if c == '@':
                name, rest = ln.split(' = ', 1)
                name = unq(name[1:])
                kind = ' ' + rest.split(' global ')[0].split(' constant ')[0] + ' '
                ext = ' external ' in kind
                if ' private ' in kind or ' internal ' in kind:
                    self.globals[(fi, name)] = dict(rest=rest, ext=False, file=fi)
                elif name not in self.globals or (self.globals[name]['ext'] and not ext):
                    self.globals[name] = dict(rest=rest, ext=ext, file=fi)
            elif c == '%':
                m = re.match(r'(%(?:"[^"]*"|[-\w.$]+)) = type (.*)$', ln)
                if m:
                    self.types.setdefault(m.group(1), m.group(2))
            elif ln.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(', ln)
                name = unq(m.group(1))
                internal = ' internal ' in ln[:120] or ' private ' in ln[:120]
                key = name
                if key in self.funcs:
                    # an internal duplicate of a generic instance: same mangled name, same body
                    i = j + 1
                    continue
                self.funcs[key] = (fi, i, j)
                i = j
            elif ln.startswith('attributes #'):
                m = re.match(r'attributes #(\d+)', ln)
                f = re.search(r'"target-features"="([^"]*)"', ln)
                self.feats[(fi, m.group(1))] = frozenset(e[1:] for e in f.group(1).split(',') if e[0] == '+') if f else frozenset()
            elif ln.startswith('declare'):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(', ln)
                if m:
                    self.decls[unq(m.group(1))] = ln
            i += 1

    # ---- type parsing
    def ptype(self, toks, i):
        t = toks[i]
        if t == 'ptr':
            i += 1
            if i < len(toks) and toks[i] == 'addrspace':
                i += 4
            return PTR, i
        if t == 'void':
            return VOID, i + 1
        if t == 'float':
            return ('f', 32), i + 1
        if t == 'double':
            return ('f', 64), i + 1
        if t == 'half':
            return ('f', 16), i + 1
        if t in ('metadata', 'label', 'token'):
            return ('x', t), i + 1
        if t[0] == 'i' and t[1:].isdigit():
            return ('i', int(t[1:])), i + 1
        if t == '<':
            n = int(toks[i + 1])
            assert toks[i + 2] == 'x'
            e, i = self.ptype(toks, i + 3)
            assert toks[i] == '>', toks[i:]
            return ('vec', n, e), i + 1
        if t == '[':
            n = int(toks[i + 1])
            assert toks[i + 2] == 'x'
            e, i = self.ptype(toks, i + 3)
            assert toks[i] == ']'
            return ('arr', n, e), i + 1
        if t == '{' or t == '<{':
            packed = t == '<{'
            end = '}>' if packed else '}'
            i += 1
            fs = []
            while toks[i] != end:
                f, i = self.ptype(toks, i)
                fs.append(f)
                if toks[i] == ',':
                    i += 1
            return ('st', tuple(fs), packed), i + 1
        if t[0] == '%':
            d = self.types[t]
            if isinstance(d, str):
                d, _ = self.ptype(tokenize(d), 0)
                self.types[t] = d
            return d, i + 1
        raise ParseError('type %r' % (toks[i:i + 6],))

    # ---- constants: ('c', pyvalue) | ('r', name) | ('g', name, offset)
    def pval(self, ty, toks, i):
        t = toks[i]
        if t[0] == '%':
            return ('r', unq(t[1:])), i + 1
        if t[0] == '@':
            return ('g', unq(t[1:]), 0), i + 1
        k = ty[0]
        if t in ('poison', 'undef'):
            return ('c', undef_of(ty)), i + 1
        if t == 'zeroinitializer':
            return ('c', zero_of(ty)), i + 1
        if t == 'null':
            return ('c', 0), i + 1
        if t == 'none':
            return ('c', 0), i + 1
        if t == 'true':
            return ('c', 1), i + 1
        if t == 'false':
            return ('c', 0), i + 1
        if t == 'splat':
            assert toks[i + 1] == '('
            et, j = self.ptype(toks, i + 2)
            v, j = self.pval(et, toks, j)
            assert toks[j] == ')'
            n = ty[1]
            if v[0] == 'c':
                return ('c', (v[1],) * n), j + 1
            return ('agg', ty, [v] * n), j + 1
        if t[0] == 'c' and t[1:2] == '"':
            bs = unesc(t[2:-1])
            return ('c', tuple(bs)), i + 1
        if t in ('<', '[', '{', '<{'):
            end = {'<': '>', '[': ']', '{': '}', '<{': '}>'}[t]
            i += 1
            vs = []
            while toks[i] != end:
                et, i = self.ptype(toks, i)
                v, i = self.pval(et, toks, i)
                vs.append(v)
                if toks[i] == ',':
                    i += 1
            if all(v[0] == 'c' for v in vs):
                return ('c', tuple(v[1] for v in vs)), i + 1
            return ('agg', ty, vs), i + 1
        if k == 'i':
            return ('c', int(t) & ((1 << ty[1]) - 1)), i + 1
        if k == 'f':
            return ('c', fconst(t, ty[1])), i + 1
        if t == 'getelementptr':
            return self.pgep(toks, i)
        if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'sub', 'add'):
            return self.pcexpr(toks, i)
        raise ParseError('value %r of %r' % (toks[i:i + 8], ty))

    def pgep(self, toks, i):
        i += 1
        while toks[i] != '(':
            i += 1
        i += 1
        st, i = self.ptype(toks, i)
        assert toks[i] == ','
        i += 1
        pt, i = self.ptype(toks, i)
        base, i = self.pval(pt, toks, i)
        idx = []
        while toks[i] == ',':
            it, i = self.ptype(toks, i + 1)
            v, i = self.pval(it, toks, i)
            c = v[1]
            w = it[1]
            if c >> (w - 1):
                c -= 1 << w
            idx.append(c)
        assert toks[i] == ')'
        off = idx[0] * self.size(st)
        t = st
        for c in idx[1:]:
            o, t = self.field(t, c)
            off += o
        if base[0] == 'g':
            return ('g', base[1], base[2] + off), i + 1
        return ('c', base[1] + off), i + 1

    def pcexpr(self, toks, i):
        op = toks[i]
        i += 1
        while toks[i] != '(':
            i += 1
        t, i = self.ptype(toks, i + 1)
        v, i = self.pval(t, toks, i)
        if toks[i] == 'to':
            t2, i = self.ptype(toks, i + 1)
            assert toks[i] == ')'
            return v, i + 1
        raise ParseError('constant expression ' + op)

    # ---- layout
    def size(self, t):
        k = t[0]
        if k == 'i':
            w = t[1]
            if w in (8, 16, 32, 64, 128):
                return w // 8
            b = (w + 7) // 8
            # LLVM rounds odd widths up to their ABI alignment for allocation size
            p = 1
            while p < b:
                p *= 2
            return p if b <= 8 else (b + 15) // 16 * 16
        if k == 'f':
            return t[1] // 8
        if k == 'ptr':
            return 8
        if k == 'vec':
            if t[2] == I1:
                return (t[1] + 7) // 8
            n = t[1] * self.size(t[2])
            p = 1
            while p < n:
                p *= 2
            return p
        if k == 'arr':
            return t[1] * self.size(t[2])
        if k == 'st':
            off = 0
            for f in t[1]:
                if not t[2]:
                    a = self.align(f)
                    off = (off + a - 1) // a * a
                off += self.size(f)
            if not t[2] and t[1]:
                a = self.align(t)
                off = (off + a - 1) // a * a
            return off
        raise ParseError('size %r' % (t,))

    def store_size(self, t):
        if t[0] == 'i':
            return (t[1] + 7) // 8
        if t[0] == 'vec':
            if t[2] == I1:
                return (t[1] + 7) // 8
            return t[1] * self.size(t[2])
        return self.size(t)

    def align(self, t):
        k = t[0]
        if k == 'i':
            return min(16, self.size(t))
        if k in ('f', 'ptr'):
            return self.size(t)
        if k == 'vec':
            return self.size(t)
        if k == 'arr':
            return self.align(t[2])
        if k == 'st':
            if t[2]:
                return 1
            return max([self.align(f) for f in t[1]] or [1])
        raise ParseError('align %r' % (t,))

    def field(self, t, i):
        if t[0] in ('arr', 'vec'):
            return i * self.size(t[2]), t[2]
        off = 0
        for j, f in enumerate(t[1]):
            if not t[2]:
                a = self.align(f)
                off = (off + a - 1) // a * a
            if j == i:
                return off, f
            off += self.size(f)
        raise ParseError('field')

    # ---- functions
    def func(self, name):
        f = self._parsed.get(name)
        if f is None:
            fi, a, b = self.funcs[name]
            f = self._parsed[name] = Func(self, name, self.texts[fi], a, b)
        return f


def unq(s):
    if s and s[0] == '"':
        return s[1:-1]
    return s


def unesc(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode('utf-8')
            i += 1
    return out


def fconst(t, w):
    if t.startswith('f0x'):
        h = t[3:]
        n = int(h, 16)
        bits = {16: 'e', 32: 'f', 64: 'd'}
        if w == 64:
            return struct.unpack('<d', struct.pack('<Q', n))[0]
        if w == 32:
            return struct.unpack('<f', struct.pack('<I', n))[0]
        return struct.unpack('<e', struct.pack('<H', n))[0]
    if t.startswith('0xH'):
        return struct.unpack('<e', struct.pack('<H', int(t[3:], 16)))[0]
    if t.startswith('0x'):
        return struct.unpack('<d', struct.pack('<Q', int(t, 16)))[0]
    if t in ('+inf', 'inf'):
        return float('inf')
    if t == '-inf':
        return float('-inf')
    if t in ('+qnan', 'qnan', 'nan', '+nan', '-qnan', '-nan'):
        return float('nan')
    # the shortest decimal that rounds to the constant
    f = {16: '<e', 32: '<f', 64: '<d'}[w]
    return struct.unpack(f, struct.pack(f, float(t)))[0]


class Undef:
    """An undefined (uninitialised, poison) value."""
    __slots__ = ()

    def __repr__(self):
        return 'UNDEF'


UNDEF = Undef()


def undef_of(ty):
    if ty[0] in ('vec', 'arr'):
        return (undef_of(ty[2]),) * ty[1]
    if ty[0] == 'st':
        return tuple(undef_of(f) for f in ty[1])
    return UNDEF


def zero_of(ty):
    if ty[0] in ('vec', 'arr'):
        return (zero_of(ty[2]),) * ty[1]
    if ty[0] == 'st':
        return tuple(zero_of(f) for f in ty[1])
    if ty[0] == 'f':
        return 0.0
    return 0


PARAM_ATTR_PAREN = {'dereferenceable', 'dereferenceable_or_null', 'range', 'captures', 'sret', 'byval',
                    'nofpclass', 'align', 'initializes', 'memory', 'elementtype', 'allocsize', 'byref',
                    'inalloca', 'preallocated', 'vscale_range'}
PARAM_ATTR = {'noalias', 'nofree', 'noundef', 'nonnull', 'readonly', 'writeonly', 'writable', 'zeroext',
              'signext', 'inreg', 'returned', 'nest', 'nocapture', 'readnone', 'dead_on_unwind', 'immarg',
              'allocalign', 'allocptr', 'swiftself', 'dead_on_return', 'inlinehint'}
CALL_PRE = {'tail', 'musttail', 'notail', 'call', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn',
            'reassoc', 'fastcc', 'ccc', 'coldcc', 'noundef', 'noalias', 'nonnull', 'zeroext', 'signext',
            'range', 'inreg', 'align', 'dereferenceable', 'dereferenceable_or_null', 'nofpclass',
            'preserve_mostcc', 'preserve_nonecc', 'preserve_allcc'}


def skip_parens(toks, i):
    assert toks[i] == '('
    d = 0
    while True:
        if toks[i] == '(':
            d += 1
        elif toks[i] == ')':
            d -= 1
            if d == 0:
                return i + 1
        i += 1


def skip_attrs(toks, i):
    n = len(toks)
    while i < n:
        t = toks[i]
        if t in PARAM_ATTR or t == 'fast':
            i += 1
        elif t in PARAM_ATTR_PAREN:
            i += 1
            if toks[i] == '(':
                i = skip_parens(toks, i)
            elif t == 'align':
                i += 1
        elif t in ('noundef',) or (t[0] == '"' and t[-1] == '"'):
            i += 1
            if i < n and toks[i] == '=':
                i += 2
        else:
            return i
    return i


FLAGS = {'nuw', 'nsw', 'exact', 'nneg', 'disjoint', 'samesign', 'inbounds', 'nusw', 'fast', 'nnan', 'ninf',
         'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'volatile', 'atomic', 'tail', 'musttail', 'notail'}
BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint',
        'inttoptr', 'bitcast', 'addrspacecast', 'ptrtoaddr'}


class Func:
    def __init__(self, mod, name, lines, a, b):
        self.mod = mod
        self.name = name
        self.file = mod.funcs[name][0]
        self.header = lines[a]
        m = re.search(r' #(\d+)(?: |$)', self.header[self.header.rfind(')'):])
        self.features = mod.feats.get((self.file, m.group(1)), frozenset()) if m else frozenset()
        self.parse_header()
        self.blocks = []     # (label, [instr])
        self.labels = {}
        cur = None
        i = a + 1
        first = True
        while i < b:
            ln = lines[i]
            if not ln or ln.startswith(';'):
                i += 1
                continue
            if ln[0] != ' ':
                m = re.match(r'("(?:[^"\\]|\\.)*"|[-\w.$]+):', ln)
                if not m:
                    raise ParseError('label ' + ln)
                cur = []
                lab = unq(m.group(1))
                self.labels[lab] = len(self.blocks)
                self.blocks.append((lab, cur))
                i += 1
                first = False
                continue
            if cur is None:
                cur = []
                lab = str(self.nimplicit)
                self.labels[lab] = 0
                self.blocks.append((lab, cur))
            s = ln.strip()
            # multi-line: switch
            if s.startswith('switch') and ']' not in s:
                while True:
                    i += 1
                    s += ' ' + lines[i].strip()
                    if lines[i].strip().startswith(']'):
                        break
            j = s.find(', !')
            if j >= 0:
                s = s[:j]
            k = s.find(' ;')
            if k >= 0 and '"' not in s:
                s = s[:k]
            cur.append(self.pinstr(s))
            i += 1

    def parse_header(self):
        h = self.header
        m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(', h)
        pre = tokenize(h[:m.start()])
        rest = tokenize(h[m.end() - 1:])
        # return type: last type before the name
        mod = self.mod
        rt = None
        i = 1
        while i < len(pre):
            i2 = skip_attrs(pre, i)
            if i2 != i:
                i = i2
                continue
            try:
                t, j = mod.ptype(pre, i)
                if j == len(pre):
                    rt = t
                    break
                i += 1
            except (ParseError, KeyError, AssertionError, ValueError, IndexError):
                i += 1
        self.ret = rt
        self.params = []
        self.nimplicit = 0
        i = 1
        while rest[i] != ')':
            t, i = mod.ptype(rest, i)
            # attributes, then the name
            j = i
            while rest[j] not in (',', ')') and rest[j][0] != '%':
                if rest[j] in PARAM_ATTR_PAREN and rest[j + 1] == '(':
                    j = skip_parens(rest, j + 1)
                else:
                    j += 1
            if rest[j][0] == '%':
                nm = unq(rest[j][1:])
                j += 1
            else:
                nm = str(len(self.params))
            if nm.isdigit():
                self.nimplicit += 1
            attrs = rest[i:j - 1]
            self.params.append((nm, t, attrs))
            i = j
            if rest[i] == ',':
                i += 1

    def pinstr(self, s):
        mod = self.mod
        toks = tokenize(s)
        dst = None
        i = 0
        if len(toks) > 1 and toks[1] == '=':
            dst = unq(toks[0][1:])
            i = 2
        op = toks[i]
        if op in ('tail', 'musttail', 'notail'):
            i += 1
            op = toks[i]
        i += 1
        if op in BIN:
            fl = []
            while toks[i] in FLAGS:
                fl.append(toks[i])
                i += 1
            t, i = mod.ptype(toks, i)
            a, i = mod.pval(t, toks, i)
            b, i = mod.pval(t, toks, i + 1)
            return ('bin', dst, op, t, a, b, fl)
        if op == 'fneg':
            while toks[i] in FLAGS:
                i += 1
            t, i = mod.ptype(toks, i)
            a, i = mod.pval(t, toks, i)
            return ('fneg', dst, t, a)
        if op in ('icmp', 'fcmp'):
            while toks[i] in FLAGS:
                i += 1
            pred = toks[i]
            t, i = mod.ptype(toks, i + 1)
            a, i = mod.pval(t, toks, i)
            b, i = mod.pval(t, toks, i + 1)
            return (op, dst, pred, t, a, b)
        if op in CAST:
            fl = []
            while toks[i] in FLAGS:
                fl.append(toks[i])
                i += 1
            t, i = mod.ptype(toks, i)
            a, i = mod.pval(t, toks, i)
            assert toks[i] == 'to'
            t2, i = mod.ptype(toks, i + 1)
            return ('cast', dst, op, t, a, t2, fl)
        if op == 'select':
            while toks[i] in FLAGS:
                i += 1
            tc, i = mod.ptype(toks, i)
            c, i = mod.pval(tc, toks, i)
            t, i = mod.ptype(toks, i + 1)
            a, i = mod.pval(t, toks, i)
            t3, i = mod.ptype(toks, i + 1)
            b, i = mod.pval(t, toks, i)
            return ('select', dst, tc, c, t, a, b)
        if op == 'phi':
            while toks[i] in FLAGS:
                i += 1
            t, i = mod.ptype(toks, i)
            inc = []
            while i < len(toks):
                assert toks[i] == '['
                v, i = mod.pval(t, toks, i + 1)
                lab = unq(toks[i + 1][1:])
                inc.append((v, lab))
                assert toks[i + 2] == ']'
                i += 3
                if i < len(toks) and toks[i] == ',':
                    i += 1
            return ('phi', dst, t, inc)
        if op == 'br':
            if toks[i] == 'label':
                return ('br', unq(toks[i + 1][1:]))
            t, i = mod.ptype(toks, i)
            c, i = mod.pval(t, toks, i)
            # , label %a , label %b
            return ('cbr', c, unq(toks[i + 2][1:]), unq(toks[i + 5][1:]))
        if op == 'switch':
            t, i = mod.ptype(toks, i)
            c, i = mod.pval(t, toks, i)
            d = unq(toks[i + 2][1:])
            i += 4
            cases = []
            while toks[i] != ']':
                ct, i = mod.ptype(toks, i)
                v, i = mod.pval(ct, toks, i)
                cases.append((v[1], unq(toks[i + 2][1:])))
                i += 3
            return ('switch', t, c, d, cases)
        if op == 'ret':
            t, i = mod.ptype(toks, i)
            if t == VOID:
                return ('ret', None, None)
            v, i = mod.pval(t, toks, i)
            return ('ret', t, v)
        if op == 'unreachable':
            return ('unreachable',)
        if op == 'load':
            atomic = False
            while toks[i] in FLAGS:
                atomic |= toks[i] == 'atomic'
                i += 1
            t, i = mod.ptype(toks, i)
            assert toks[i] == ','
            pt, i = mod.ptype(toks, i + 1)
            p, i = mod.pval(pt, toks, i)
            al = 1
            for k in range(i, len(toks) - 1):
                if toks[k] == 'align':
                    al = int(toks[k + 1])
            return ('load', dst, t, p, al, atomic)
        if op == 'store':
            atomic = False
            while toks[i] in FLAGS:
                atomic |= toks[i] == 'atomic'
                i += 1
            t, i = mod.ptype(toks, i)
            v, i = mod.pval(t, toks, i)
            pt, i = mod.ptype(toks, i + 1)
            p, i = mod.pval(pt, toks, i)
            al = 1
            for k in range(i, len(toks) - 1):
                if toks[k] == 'align':
                    al = int(toks[k + 1])
            return ('store', t, v, p, al, atomic)
        if op == 'alloca':
            t, i = mod.ptype(toks, i)
            n = ('c', 1)
            al = 1
            while i < len(toks):
                if toks[i] == ',' and toks[i + 1] != 'align':
                    nt, i = mod.ptype(toks, i + 1)
                    n, i = mod.pval(nt, toks, i)
                elif toks[i] == ',' and toks[i + 1] == 'align':
                    al = int(toks[i + 2])
                    i += 3
                else:
                    i += 1
            return ('alloca', dst, t, n, al)
        if op == 'getelementptr':
            while toks[i] in FLAGS:
                i += 1
            if toks[i] == 'inrange':
                i = skip_parens(toks, i + 1)
            st, i = mod.ptype(toks, i)
            pt, i = mod.ptype(toks, i + 1)
            p, i = mod.pval(pt, toks, i)
            idx = []
            while i < len(toks) and toks[i] == ',':
                it, i = mod.ptype(toks, i + 1)
                v, i = mod.pval(it, toks, i)
                idx.append((it, v))
            return ('gep', dst, st, pt, p, idx)
        if op == 'extractvalue':
            t, i = mod.ptype(toks, i)
            v, i = mod.pval(t, toks, i)
            path = [int(x) for x in toks[i:] if x != ',']
            return ('extractvalue', dst, t, v, path)
        if op == 'insertvalue':
            t, i = mod.ptype(toks, i)
            v, i = mod.pval(t, toks, i)
            et, i = mod.ptype(toks, i + 1)
            e, i = mod.pval(et, toks, i)
            path = [int(x) for x in toks[i:] if x != ',']
            return ('insertvalue', dst, t, v, e, path)
        if op == 'extractelement':
            t, i = mod.ptype(toks, i)
            v, i = mod.pval(t, toks, i)
            it, i = mod.ptype(toks, i + 1)
            ix, i = mod.pval(it, toks, i)
            return ('extractelement', dst, t, v, ix)
        if op == 'insertelement':
            t, i = mod.ptype(toks, i)
            v, i = mod.pval(t, toks, i)
            et, i = mod.ptype(toks, i + 1)
            e, i = mod.pval(et, toks, i)
            it, i = mod.ptype(toks, i + 1)
            ix, i = mod.pval(it, toks, i)
            return ('insertelement', dst, t, v, e, ix)
        if op == 'shufflevector':
            t, i = mod.ptype(toks, i)
            a, i = mod.pval(t, toks, i)
            t2, i = mod.ptype(toks, i + 1)
            b, i = mod.pval(t2, toks, i)
            mt, i = mod.ptype(toks, i + 1)
            m, i = mod.pval(mt, toks, i)
            return ('shufflevector', dst, t, a, b, m[1])
        if op == 'freeze':
            t, i = mod.ptype(toks, i)
            v, i = mod.pval(t, toks, i)
            return ('freeze', dst, t, v)
        if op == 'fence':
            return ('nop',)
        if op == 'atomicrmw':
            while toks[i] in FLAGS:
                i += 1
            aop = toks[i]
            pt, i = mod.ptype(toks, i + 1)
            p, i = mod.pval(pt, toks, i)
            t, i = mod.ptype(toks, i + 1)
            v, i = mod.pval(t, toks, i)
            return ('atomicrmw', dst, aop, t, p, v)
        if op == 'cmpxchg':
            while toks[i] in FLAGS or toks[i] == 'weak':
                i += 1
            pt, i = mod.ptype(toks, i)
            p, i = mod.pval(pt, toks, i)
            t, i = mod.ptype(toks, i + 1)
            a, i = mod.pval(t, toks, i)
            t2, i = mod.ptype(toks, i + 1)
            b, i = mod.pval(t, toks, i)
            return ('cmpxchg', dst, t, p, a, b)
        if op == 'call':
            while True:
                t = toks[i]
                if t in FLAGS or t in ('fastcc', 'ccc', 'coldcc', 'preserve_mostcc', 'preserve_nonecc',
                                       'preserve_allcc'):
                    i += 1
                    continue
                j = skip_attrs(toks, i)
                if j != i:
                    i = j
                    continue
                break
            rt, i = mod.ptype(toks, i)
            if toks[i] == '(':  # varargs function type
                i = skip_parens(toks, i)
            if toks[i] == 'asm':
                return ('asm', dst, s)
            callee, i = mod.pval(PTR, toks, i)
            assert toks[i] == '(', s
            i += 1
            args = []
            while toks[i] != ')':
                t, i = mod.ptype(toks, i)
                if t == ('x', 'metadata'):
                    d = 0
                    while d > 0 or toks[i] not in (',', ')'):
                        if toks[i] == '(':
                            d += 1
                        if toks[i] == ')':
                            d -= 1
                        i += 1
                    args.append((t, ('c', 0)))
                else:
                    i = skip_attrs(toks, i)
                    v, i = mod.pval(t, toks, i)
                    args.append((t, v))
                if toks[i] == ',':
                    i += 1
            return ('call', dst, rt, callee, args)
        raise ParseError('instruction ' + s)


def parse_ir(paths):
    m = Module()
    for p in paths:
        m.add_file(p)
    return m
