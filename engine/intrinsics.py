"""LLVM and x86 intrinsics."""
import re
from .irparse import UNDEF
from . import terms as T
from . import ops as O
from .terms import Unsupported


def sat_s(x, w):
    return T.canon(T.clamp(x, -(1 << (w - 1)), (1 << (w - 1)) - 1), w)


def sat_u(x, w):
    return T.clamp(x, 0, (1 << w) - 1)


def und(*a):
    return any(x is UNDEF for x in a)


def lift(f):
    """scalar function -> on vectors too"""
    def g(args):
        if args[0].__class__ is tuple:
            return tuple([f(*xs) for xs in zip(*[a if a.__class__ is tuple else (a,) * len(args[0]) for a in args])])
        return f(*args)
    return g


def minmax(kind, w):
    def f(a, b):
        if und(a, b):
            return UNDEF
        x, y = (T.S(a, w), T.S(b, w)) if kind[0] == 's' else (T.U(a, w), T.U(b, w))
        return T.canon((T.lmin if kind.endswith('min') else T.lmax)(x, y), w)
    return f


def addsat(kind, w):
    def f(a, b):
        if und(a, b):
            return UNDEF
        if kind[0] == 's':
            x, y = T.S(a, w), T.S(b, w)
            return sat_s(T.ladd(x, y) if 'add' in kind else T.lsub(x, y), w)
        x, y = T.U(a, w), T.U(b, w)
        return sat_u(T.ladd(x, y) if 'add' in kind else T.lsub(x, y), w)
    return f


def overflow(kind, w):
    op = kind[1:4]

    def f(a, b):
        if und(a, b):
            return (UNDEF, UNDEF)
        x, y = (T.S(a, w), T.S(b, w)) if kind[0] == 's' else (T.U(a, w), T.U(b, w))
        r = T.ladd(x, y) if op == 'add' else T.lsub(x, y) if op == 'sub' else T.lmul(x, y)
        l, h = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if kind[0] == 's' else (0, (1 << w) - 1)
        o = T.bor(T.le0(T.ladd(T.lsub(h, r), 1)), T.le0(T.ladd(T.lsub(r, l), 1)))
        if o.__class__ is int and o and r.__class__ is not int:
            pass
        return (T.canon(r, w), o)
    return f


def f2isat(w, signed, fmt):
    return lambda a: T.f2i(a, 'trunc', w, signed, fmt, 'sat')


FNAMES = {'fabs': None, 'sqrt': 'sqrt', 'floor': 'floor', 'ceil': 'ceil', 'trunc': 'trunc', 'round': 'round',
          'rint': 'rint', 'nearbyint': 'rint', 'roundeven': 'rint', 'sin': 'sin', 'cos': 'cos', 'exp': 'exp',
          'log': 'log', 'log2': 'log2', 'log10': 'log10', 'exp2': 'exp2'}


def width(s):
    m = re.match(r'(?:v(\d+))?([if])(\d+)$', s)
    return int(m.group(3))


def bswap(w):
    def f(a):
        if a is UNDEF:
            return a
        if a.__class__ is int:
            return int.from_bytes(a.to_bytes(w // 8, 'little'), 'big')
        u = T.U(a, w)
        r = 0
        for i in range(w // 8):
            d = T.fdiv(u, 1 << (8 * i)) if i else u
            if i < w // 8 - 1:
                d = T.fmod(d, 256)
            r = T.ladd(r, T.lmulc(d, 1 << (w - 8 - 8 * i)))
        return T.canon(r, w)
    return f


def bitcount(kind, w):
    def f(a, *r):
        if a.__class__ is not int:
            raise Unsupported(kind + ' of a symbolic value')
        if kind == 'ctpop':
            return bin(a).count('1')
        if kind == 'ctlz':
            return w - a.bit_length()
        return (a & -a).bit_length() - 1 if a else w
    return f


def funnel(kind, w):
    def f(a, b, c):
        if und(a, b, c):
            return UNDEF
        if c.__class__ is not int:
            raise Unsupported(kind)
        c %= w
        if c == 0:
            return a if kind == 'fshl' else b
        if kind == 'fshr':
            c = w - c
        return O.add(O.shl(a, c, w), O.lshr(b, w - c, w), w)
    return f


def iabs(w):
    def f(a, p=0):
        if a is UNDEF:
            return a
        x = T.S(a, w)
        return T.canon(T.lmax(x, T.lmulc(x, -1)), w)
    return f


def reduce(kind, w):
    op = {'add': O.BIN['add'], 'or': O.BIN['or'], 'and': O.BIN['and'], 'xor': O.BIN['xor'], 'mul': O.BIN['mul'],
          'smax': None, 'smin': None, 'umax': None, 'umin': None}[kind]

    def f(args):
        v = args[0]
        r = v[0]
        for x in v[1:]:
            r = op(r, x, w) if op else minmax(kind, w)(r, x)
        return r
    return f


def intrinsic(m, name):
    n = name[5:]
    if n.startswith('x86.'):
        return x86(m, n[4:])
    if n.startswith('memcpy') or n.startswith('memmove'):
        return lambda a: m.memcpy(a[0], a[1], a[2])
    if n.startswith('memset'):
        return lambda a: m.memset(a[0], a[1], a[2])
    if n in ('assume', 'experimental.noalias.scope.decl') or n.startswith(('lifetime', 'prefetch', 'dbg')):
        return lambda a: None
    if n.startswith('threadlocal.address'):
        return lambda a: m.thread_local(a[0])
    if n.startswith('masked.load.v'):
        return masked_load(m, n)
    if n.startswith('masked.store.v'):
        return masked_store(m, n)
    if n == 'trap' or n == 'ubsantrap':
        return lambda a: m.panic('llvm.trap')
    p = n.split('.')
    k = p[0]
    if k in ('smax', 'smin', 'umax', 'umin'):
        return lift(minmax(k, width(p[1])))
    if len(p) > 1 and p[1] == 'sat' and k in ('sadd', 'uadd', 'ssub', 'usub'):
        return lift(addsat(k, width(p[2])))
    if len(p) > 2 and p[1] == 'with':
        return lift(overflow(k, width(p[3])))
    if k in ('fptosi', 'fptoui'):
        return lift(f2isat(width(p[2]), k == 'fptosi', width(p[3])))
    if k in ('maximumnum', 'maxnum', 'minimumnum', 'minnum', 'maximum', 'minimum'):
        w = width(p[1])
        kk = 'maxnum' if k.startswith('max') else 'minnum'
        return lift(lambda a, b: T.fminmax(kk, a, b, w))
    if k == 'fma' or k == 'fmuladd':
        w = width(p[1])
        return lift(lambda a, b, c: T.ffma(a, b, c, w))
    if k == 'fabs':
        w = width(p[1])
        return lift(lambda a: T.fabs(a, w))
    if k == 'copysign':
        w = width(p[1])

        def cs(a, b):
            if a.__class__ is float and b.__class__ is float:
                import math
                return math.copysign(a, b)
            raise Unsupported('copysign')
        return lift(cs)
    if k in FNAMES:
        w = width(p[1])
        nm = FNAMES[k]
        return lift(lambda a: T.fun1(nm, a, w))
    if k == 'pow':
        w = width(p[1])
        return lift(lambda a, b: T.fun2('pow', a, b, w))
    if k == 'powi':
        w = width(p[1])

        def powi(a, n):
            # compiler-rt's __powi: repeated squaring
            if n.__class__ is not int:
                raise Unsupported('powi with a symbolic exponent')
            n = n - (1 << 32) if n >> 31 else n
            b, r, neg = abs(n), None, n < 0
            while True:
                if b & 1:
                    r = a if r is None else T.fbin('fmul', r, a, w)
                b >>= 1
                if not b:
                    break
                a = T.fbin('fmul', a, a, w)
            r = 1.0 if r is None else r
            return T.fbin('fdiv', 1.0, r, w) if neg else r
        return lift(powi)
    if k == 'bswap':
        return lift(bswap(width(p[1])))
    if k in ('ctpop', 'ctlz', 'cttz'):
        return lift(bitcount(k, width(p[1])))
    if k in ('fshl', 'fshr'):
        return lift(funnel(k, width(p[1])))
    if k == 'abs':
        return lift(iabs(width(p[1])))
    if k == 'vector' and p[1] == 'reduce' and p[2] in ('add', 'or', 'and', 'xor', 'mul', 'smax', 'smin', 'umax', 'umin'):
        return reduce(p[2], width(p[3]))
    if k == 'vector' and p[1] == 'reduce' and p[2] in ('fadd', 'fmul'):
        w = width(p[3])

        def fr(args):
            r = args[0]
            for x in args[1]:
                r = T.fbin(p[2], r, x, w)
            return r
        return fr
    if k == 'expect' or k == 'ssa':
        return lambda a: a[0]
    return None


def elem(n):
    e = n.split('.')[2]
    cnt, t = re.match(r'v(\d+)([if]\d+)$', e).groups()
    if t[0] != 'i':
        raise Unsupported('masked access of ' + e)
    return int(cnt), int(t[1:]) // 8


def bits(mask):
    if any(b.__class__ is not int for b in mask):
        raise Unsupported('masked access under a symbolic mask')
    return mask


def masked_load(m, n):
    cnt, sz = elem(n)
    return lambda a: tuple(m.load_bytes_int(O.gepadd(a[0], i * sz, 1, 64), sz, 1) if b else e for i, (b, e) in enumerate(zip(bits(a[1]), a[2])))


def masked_store(m, n):
    cnt, sz = elem(n)

    def f(a):
        for i, (b, v) in enumerate(zip(bits(a[2]), a[0])):
            if b:
                m.store_int(O.gepadd(a[1], i * sz, 1, 64), v, sz, 1)
    return f


def masked(f):
    """f on the lanes a write mask selects: arguments x, pass-through, mask, ..."""
    def g(a):
        mk = a[2]
        if mk.__class__ is not int:
            raise Unsupported('symbolic write mask')
        return tuple(f(x) if mk >> i & 1 else p for i, (x, p) in enumerate(zip(a[0], a[1])))
    return g


def cvtps2dq512(a):
    if len(a) > 3 and a[3] not in (4, 8):
        raise Unsupported('rounding mode')
    return masked(lambda x: T.f2i(x, 'rint', 32, True, 32, 'x86'))(a)


def pmaddwd(args):
    a, b = args[0], args[1]
    out = []
    for i in range(0, len(a), 2):
        if und(a[i], a[i + 1], b[i], b[i + 1]):
            out.append(UNDEF)
            continue
        x = T.lmul(T.S(a[i], 16), T.S(b[i], 16))
        y = T.lmul(T.S(a[i + 1], 16), T.S(b[i + 1], 16))
        out.append(T.canon(T.ladd(x, y), 32))
    return tuple(out)


def pmaddubsw(args):
    a, b = args[0], args[1]
    out = []
    for i in range(0, len(a), 2):
        if und(a[i], a[i + 1], b[i], b[i + 1]):
            out.append(UNDEF)
            continue
        x = T.lmul(T.U(a[i], 8), T.S(b[i], 8))
        y = T.lmul(T.U(a[i + 1], 8), T.S(b[i + 1], 8))
        out.append(sat_s(T.ladd(x, y), 16))
    return tuple(out)


def pmulhrsw(args):
    out = []
    for a, b in zip(args[0], args[1]):
        if und(a, b):
            out.append(UNDEF)
            continue
        p = T.lmul(T.S(a, 16), T.S(b, 16))
        out.append(T.canon(T.fdiv(T.ladd(p, 1 << 14), 1 << 15), 16))
    return tuple(out)


def pack(signed_out, win, wout):
    def f(args):
        a, b = args
        n = len(a)
        per = 128 // win
        out = []
        for l in range(0, n, per):
            for v in (a, b):
                for x in v[l:l + per]:
                    if x is UNDEF:
                        out.append(UNDEF)
                    else:
                        s = T.S(x, win)
                        out.append(sat_s(s, wout) if signed_out else sat_u(s, wout))
        return tuple(out)
    return f


CMP = ['oeq', 'olt', 'ole', 'uno', 'une', 'uge', 'ugt', 'ord', 'ueq', 'ult', 'ule', 'false', 'one', 'oge', 'ogt', 'true']


def cmpps(args):
    p = CMP[args[2] % 16]
    out = []
    for a, b in zip(args[0], args[1]):
        if p in ('true', 'false'):
            c = int(p == 'true')
        else:
            c = T.fcmp(p, a, b)
        if c is UNDEF:
            out.append(UNDEF)
        else:
            out.append(T.frombits(T.select_int(c, 0xFFFFFFFF, 0, 32), 32))
    return tuple(out)


def pshufb(args):
    a, mk = args
    out = []
    for l in range(0, len(a), 16):
        for i in range(16):
            s = mk[l + i]
            if s.__class__ is not int:
                raise Unsupported('pshufb with a symbolic mask')
            out.append(0 if s & 0x80 else a[l + (s & 15)])
    return tuple(out)


def pmulhw(signed):
    def f(args):
        out = []
        for a, b in zip(args[0], args[1]):
            if und(a, b):
                out.append(UNDEF)
                continue
            g = T.S if signed else T.U
            out.append(T.canon(T.fdiv(T.lmul(g(a, 16), g(b, 16)), 1 << 16), 16))
        return tuple(out)
    return f


def roundps(args):
    mode = args[1] & 7
    nm = 'rint' if mode & 4 else ['rint', 'floor', 'ceil', 'trunc'][mode & 3]
    return tuple(T.fun1(nm, x, 32) for x in args[0])


def cvtps2ph(n):
    def f(args):
        if args[1] & 4 == 0 and args[1] & 3:
            raise Unsupported('vcvtps2ph with a rounding mode')
        out = [UNDEF if x is UNDEF else T.fbits(T.f2f(x, 32, 16), 16) for x in args[0]]
        return tuple(out + [0] * (n - len(out)))
    return f


def cvtph2ps(n):
    def f(args):
        return tuple(UNDEF if x is UNDEF else T.f2f(T.frombits(x, 16), 16, 32) for x in args[0][:n])
    return f


def movmsk(w):
    def f(args):
        r = 0
        for i, x in enumerate(args[0]):
            if und(x):
                return UNDEF
            if x.__class__ in (float, T.F):
                x = T.fbits(x, 32)
            b = O.lshr(x, w - 1, w)
            r = O.add(r, O.shl(b, i, 32), 32)
        return r
    return f


def blendv(fl):
    def f(args):
        out = []
        for a, b, k in zip(*args):
            if und(k):
                out.append(UNDEF)
                continue
            if fl:
                k = T.fbits(k, 32)
                c = T.icmp('slt', k, 0, 32)
                out.append(T.fsel(c, b, a, 32) if c.__class__ is not int else (b if c else a))
            else:
                c = T.icmp('slt', k, 0, 8)
                out.append(T.select_int(c, b, a, 8) if c.__class__ is not int else (b if c else a))
        return tuple(out)
    return f


X86 = {
    'sse2.pmadd.wd': pmaddwd, 'avx2.pmadd.wd': pmaddwd, 'avx512.pmaddw.d.512': pmaddwd,
    'ssse3.pmadd.ub.sw.128': pmaddubsw, 'avx2.pmadd.ub.sw': pmaddubsw,
    'ssse3.pmul.hr.sw.128': pmulhrsw, 'avx2.pmul.hr.sw': pmulhrsw, 'avx512.pmul.hr.sw.512': pmulhrsw,
    'sse2.packssdw.128': pack(True, 32, 16), 'avx2.packssdw': pack(True, 32, 16), 'avx512.packssdw.512': pack(True, 32, 16),
    'sse41.packusdw': pack(False, 32, 16), 'avx2.packusdw': pack(False, 32, 16), 'avx512.packusdw.512': pack(False, 32, 16),
    'sse2.packuswb.128': pack(False, 16, 8), 'avx2.packuswb': pack(False, 16, 8), 'avx512.packuswb.512': pack(False, 16, 8),
    'sse2.packsswb.128': pack(True, 16, 8), 'avx2.packsswb': pack(True, 16, 8),
    'sse2.cvtps2dq': lambda a: tuple(T.f2i(x, 'rint', 32, True, 32, 'x86') for x in a[0]),
    'avx.cvt.ps2dq.256': lambda a: tuple(T.f2i(x, 'rint', 32, True, 32, 'x86') for x in a[0]),
    'sse2.cvttps2dq': lambda a: tuple(T.f2i(x, 'trunc', 32, True, 32, 'x86') for x in a[0]),
    'avx.cvtt.ps2dq.256': lambda a: tuple(T.f2i(x, 'trunc', 32, True, 32, 'x86') for x in a[0]),
    'sse.cmp.ps': cmpps, 'avx.cmp.ps.256': cmpps,
    'sse.max.ps': lambda a: tuple(T.fminmax('x86max', x, y, 32) for x, y in zip(*a)),
    'avx.max.ps.256': lambda a: tuple(T.fminmax('x86max', x, y, 32) for x, y in zip(*a)),
    'sse.min.ps': lambda a: tuple(T.fminmax('x86min', x, y, 32) for x, y in zip(*a)),
    'avx.min.ps.256': lambda a: tuple(T.fminmax('x86min', x, y, 32) for x, y in zip(*a)),
    'sse.rcp.ps': lambda a: tuple(T.rcp(x) for x in a[0]),
    'avx.rcp.ps.256': lambda a: tuple(T.rcp(x) for x in a[0]),
    'avx512.rcp14.ps.512': masked(lambda x: T.rcp(x, 'rcp14')), 'avx512.mask.cvtps2dq.512': cvtps2dq512,
    'ssse3.pshuf.b.128': pshufb, 'avx2.pshuf.b': pshufb, 'avx512.pshuf.b.512': pshufb,
    'sse2.pmulh.w': pmulhw(True), 'avx2.pmulh.w': pmulhw(True), 'sse2.pmulhu.w': pmulhw(False), 'avx2.pmulhu.w': pmulhw(False),
    'vcvtps2ph.128': cvtps2ph(8), 'vcvtps2ph.256': cvtps2ph(8), 'vcvtph2ps.128': cvtph2ps(4), 'vcvtph2ps.256': cvtph2ps(8),
    'avx.round.ps.256': roundps, 'sse41.round.ps': roundps,
    'sse.movmsk.ps': movmsk(32), 'sse2.pmovmskb.128': movmsk(8), 'avx.movmsk.ps.256': movmsk(32), 'avx2.pmovmskb': movmsk(8),
    'sse41.blendvps': blendv(True), 'avx.blendv.ps.256': blendv(True), 'sse41.pblendvb': blendv(False), 'avx2.pblendvb': blendv(False),
}


def vpdpwssd(args):
    acc, a, b = args
    return tuple(O.add(x, y, 32) for x, y in zip(acc, pmaddwd((a, b) if len(a) == 2 * len(acc) else
                 (O.bitcast(a, ('vec', len(a), ('i', 32)), ('vec', 2 * len(a), ('i', 16))),
                  O.bitcast(b, ('vec', len(b), ('i', 32)), ('vec', 2 * len(b), ('i', 16)))))))


def x86(m, n):
    h = X86.get(n)
    if h is not None:
        return h
    if n.startswith('avx512.vpdpwssd.'):
        return vpdpwssd
    return None
