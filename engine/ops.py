"""Scalar and vector operations on machine values (ints, Lin, B, floats, F, tuples)."""
from .irparse import UNDEF
from . import terms as T
from .terms import Lin, B, Unsupported

INT = int


def sg(c, w):
    return c - (1 << w) if c.__class__ is int and c >> (w - 1) else c


def add(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return (a + b) & ((1 << w) - 1)
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if w == 1:
        return T.bxor(a, b)
    return T.canon(T.ladd(sg(a, w), sg(b, w)), w)


def sub(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return (a - b) & ((1 << w) - 1)
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if w == 1:
        return T.bxor(a, b)
    return T.canon(T.lsub(sg(a, w), sg(b, w)), w)


def mul(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return (a * b) & ((1 << w) - 1)
    if a.__class__ is int and a == 0 or b.__class__ is int and b == 0:
        return 0
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if w == 1:
        return T.band(a, b)
    return T.canon(T.lmul(small(a, w), small(b, w)), w)


def small(a, w):
    """a representative of moderate size"""
    if a.__class__ is int:
        return sg(a, w)
    if a.lo < -(1 << w) or a.hi > (1 << w):
        return T.S(a, w)
    return a


def shl(a, b, w):
    if b.__class__ is int:
        if b >= w:
            return UNDEF
        if a.__class__ is int:
            return (a << b) & ((1 << w) - 1)
        if a is UNDEF:
            return a
        return T.canon(T.lmulc(a, 1 << b), w)
    return symshift(shl, a, b, w)


def lshr(a, b, w):
    if b.__class__ is int:
        if b >= w:
            return UNDEF
        if a.__class__ is int:
            return a >> b
        if a is UNDEF:
            return a
        return T.canon(T.fdiv(T.U(a, w), 1 << b), w)
    return symshift(lshr, a, b, w)


def ashr(a, b, w):
    if b.__class__ is int:
        if b >= w:
            return UNDEF
        if a.__class__ is int:
            return (T.sgn(a, w) >> b) & ((1 << w) - 1)
        if a is UNDEF:
            return a
        return T.canon(T.fdiv(T.S(a, w), 1 << b), w)
    return symshift(ashr, a, b, w)


def symshift(op, a, b, w):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    b = T.U(b, w)
    ci = T.const_ite(b)
    if ci:
        return T.select_int(ci[0], op(a, ci[1], w), op(a, ci[2], w), w)
    if b.hi - b.lo > 64:
        raise Unsupported('symbolic shift amount')
    r = op(a, b.hi, w)
    for k in range(b.hi - 1, b.lo - 1, -1):
        r = T.select_int(T.le0(T.ladd(b, -k)), op(a, k, w), r, w)
    return r


def udiv(a, b, w):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if b.__class__ is int:
        if b == 0:
            raise Unsupported('division by zero')
        if a.__class__ is int:
            return a // b
        return T.fdiv(T.U(a, w), b)
    b = T.U(b, w)
    ci = T.const_ite(b)
    if ci:
        return T.select_int(ci[0], udiv(a, ci[1], w), udiv(a, ci[2], w), w)
    raise Unsupported('udiv by a symbolic value')


def urem(a, b, w):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if b.__class__ is int:
        if b == 0:
            raise Unsupported('division by zero')
        if a.__class__ is int:
            return a % b
        return T.fmod(T.U(a, w), b)
    raise Unsupported('urem by a symbolic value')


def sdiv(a, b, w):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if b.__class__ is int:
        d = T.sgn(b, w)
        if a.__class__ is int:
            n = T.sgn(a, w)
            q = abs(n) // abs(d)
            return (q if (n < 0) == (d < 0) else -q) & ((1 << w) - 1)
        x = T.S(a, w)
        if d < 0:
            x, d = T.lmulc(x, -1), -d
        if T.lo(x) >= 0:
            return T.canon(T.fdiv(x, d), w)
        return T.canon(T.ite(T.le0(T.lmulc(x, -1)), T.fdiv(x, d), T.lmulc(T.fdiv(T.lmulc(x, -1), d), -1)), w)
    raise Unsupported('sdiv by a symbolic value')


def srem(a, b, w):
    q = sdiv(a, b, w)
    return sub(a, mul(q, b, w), w)


def and_(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return a & b
    if w == 1:
        if a is UNDEF or b is UNDEF:
            return 0 if (a.__class__ is int and a == 0) or (b.__class__ is int and b == 0) else UNDEF
        return T.band(a, b)
    return T.and_(a, b, w)


def or_(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return a | b
    if w == 1:
        if a is UNDEF or b is UNDEF:
            return 1 if (a.__class__ is int and a == 1) or (b.__class__ is int and b == 1) else UNDEF
        return T.bor(a, b)
    return T.or_(a, b, w)


def or_disjoint(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return a | b
    if w == 1:
        return or_(a, b, w)
    return T.or_(a, b, w, True)


def xor_(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return a ^ b
    if w == 1:
        if a is UNDEF or b is UNDEF:
            return UNDEF
        return T.bxor(a, b)
    return T.xor_(a, b, w)


def fop(kind):
    def f(a, b, w):
        return T.fbin(kind, a, b, w)
    return f


BIN = {'add': add, 'sub': sub, 'mul': mul, 'shl': shl, 'lshr': lshr, 'ashr': ashr, 'udiv': udiv, 'urem': urem,
       'sdiv': sdiv, 'srem': srem, 'and': and_, 'or': or_, 'xor': xor_, 'fadd': fop('fadd'), 'fsub': fop('fsub'),
       'fmul': fop('fmul'), 'fdiv': fop('fdiv')}


def halves(op, x, y):
    """a bitwise operation on 64-bit lanes that hold two 32-bit values"""
    if x is UNDEF or y is UNDEF or x.__class__ is int and y.__class__ is int:
        return op(x, y, 64)
    M = 1 << 32
    (a, b), (c, d) = [(v % M, v >> 32 & M - 1) if v.__class__ is int else (T.fmod(v, M), T.fmod(T.fdiv(T.U(v, 64), M), M)) for v in (x, y)]
    return T.canon(T.ladd(T.U(op(a, c, 32), 32), T.lmulc(T.U(op(b, d, 32), 32), M)), 64)


BITWISE = (and_, or_, xor_)


def vbin(op, a, b, w):
    if w == 64 and op in BITWISE:
        return tuple([halves(op, x, y) for x, y in zip(a, b)])
    return tuple([op(x, y, w) for x, y in zip(a, b)])


def icmp(pred, a, b, w):
    return T.icmp(pred, a, b, w)


def select(c, a, b, ty):
    """ty: type of a and b"""
    if c.__class__ is int:
        return a if c else b
    if c is UNDEF:
        return UNDEF if ty[0] not in ('vec', 'arr', 'st') else tuple(UNDEF for _ in a)
    k = ty[0]
    if k == 'i':
        return T.select_int(c, a, b, ty[1])
    if k == 'ptr':
        return T.select_int(c, a, b, 64)
    if k == 'f':
        return T.fsel(c, a, b, ty[1])
    if k in ('vec', 'arr'):
        return tuple(select(c, x, y, ty[2]) for x, y in zip(a, b))
    if k == 'st':
        return tuple(select(c, x, y, t) for x, y, t in zip(a, b, ty[1]))
    raise Unsupported('select')


def vselect(c, a, b, ty):
    e = ty[2]
    return tuple([select(x, p, q, e) for x, p, q in zip(c, a, b)])


# ---- casts -------------------------------------------------------------------------------------

def trunc(a, w, w2):
    if a.__class__ is int:
        return a & ((1 << w2) - 1)
    if a is UNDEF:
        return a
    if w2 == 1:
        return T.i2b(a)
    return a


def zext(a, w, w2):
    if a.__class__ is int or a is UNDEF:
        return a
    if w == 1:
        return T.b2i(a)
    return T.canon(T.U(a, w), w2)


def sext(a, w, w2):
    if a.__class__ is int:
        return (a - (1 << w)) & ((1 << w2) - 1) if a >> (w - 1) else a
    if a is UNDEF:
        return a
    if w == 1:
        return T.canon(T.ite(a, -1, 0), w2)
    return T.canon(T.S(a, w), w2)


def cast1(op, ty, ty2):
    """function of one lane"""
    if op == 'trunc':
        return lambda a: trunc(a, ty[1], ty2[1])
    if op == 'zext':
        return lambda a: zext(a, ty[1], ty2[1])
    if op == 'sext':
        return lambda a: sext(a, ty[1], ty2[1])
    if op in ('ptrtoint', 'inttoptr', 'addrspacecast', 'ptrtoaddr'):
        w = 64 if op == 'inttoptr' else ty2[1] if ty2[0] == 'i' else 64
        if w == 64:
            return lambda a: a
        return lambda a: trunc(a, 64, w)
    if op == 'sitofp':
        return lambda a: T.i2f(a, ty2[1], True, ty[1])
    if op == 'uitofp':
        if ty[1] == 1:
            return lambda a: T.i2f(T.b2i(a), ty2[1], False, 8)
        return lambda a: T.i2f(a, ty2[1], False, ty[1])
    if op == 'fptosi':
        return lambda a: T.f2i(a, 'trunc', ty2[1], True, ty[1], 'poison')
    if op == 'fptoui':
        return lambda a: T.f2i(a, 'trunc', ty2[1], False, ty[1], 'poison')
    if op in ('fptrunc', 'fpext'):
        return lambda a: T.f2f(a, ty[1], ty2[1])
    raise Unsupported('cast ' + op)


def cast(op, ty, ty2):
    if op == 'bitcast':
        return lambda a: bitcast(a, ty, ty2)
    if ty[0] == 'vec':
        f = cast1(op, ty[2], ty2[2])
        return lambda a: tuple([f(x) for x in a])
    return cast1(op, ty, ty2)


def lanes(ty):
    """(element type, count)"""
    if ty[0] == 'vec':
        return ty[2], ty[1]
    return ty, 1


def ewidth(t):
    return 64 if t[0] == 'ptr' else t[1]


def toint(x, t):
    return T.fbits(x, t[1]) if t[0] == 'f' and x is not UNDEF else x


def toty(x, t):
    return T.frombits(x, t[1]) if t[0] == 'f' and x is not UNDEF else x


def bitcast(a, ty, ty2):
    e1, n1 = lanes(ty)
    e2, n2 = lanes(ty2)
    w1, w2 = ewidth(e1), ewidth(e2)
    xs = a if ty[0] == 'vec' else (a,)
    if w1 == w2:
        if e1[0] != e2[0] and 'f' in (e1[0], e2[0]):
            xs = tuple([toty(toint(x, e1), e2) for x in xs])
    else:
        xs = tuple([toint(x, e1) for x in xs])
        if w1 == 1:
            xs = tuple(T.b2i(x) for x in xs)
        if w2 > w1 and w2 % w1 == 0:
            k = w2 // w1
            out = []
            for i in range(n2):
                p = xs[i * k:(i + 1) * k]
                if all(x.__class__ is int for x in p):
                    r = 0
                    for q in range(k):
                        r |= p[q] << (q * w1)
                elif any(x is UNDEF for x in p):
                    r = UNDEF
                else:
                    r = 0
                    for q in range(k):
                        r = T.ladd(r, T.lmulc(T.U(p[q], w1), 1 << (q * w1)))
                    r = T.canon(r, w2)
                out.append(toty(r, e2))
            xs = tuple(out)
        elif w1 % w2 == 0:
            k = w1 // w2
            out = []
            for x in xs:
                if x is UNDEF:
                    out += [UNDEF] * k
                    continue
                if x.__class__ is int:
                    for q in range(k):
                        out.append(toty((x >> (q * w2)) & ((1 << w2) - 1), e2))
                    continue
                u = T.U(x, w1)
                for q in range(k):
                    d = T.fdiv(u, 1 << (q * w2)) if q else u
                    if q < k - 1:
                        d = T.fmod(d, 1 << w2)
                    d = T.canon(d, w2)
                    out.append(T.i2b(d) if w2 == 1 else toty(d, e2))
            xs = tuple(out)
        else:
            raise Unsupported('bitcast %r -> %r' % (ty, ty2))
    return xs if ty2[0] == 'vec' else xs[0]


# ---- aggregates --------------------------------------------------------------------------------

def extractvalue(v, path):
    for p in path:
        if v is UNDEF:
            return v
        v = v[p]
    return v


def insertvalue(v, e, path):
    if not path:
        return e
    p = path[0]
    return v[:p] + (insertvalue(v[p], e, path[1:]),) + v[p + 1:]


def extractelement(v, i):
    if i.__class__ is int:
        return v[i] if i < len(v) else UNDEF
    raise Unsupported('extractelement at a symbolic index')


def insertelement(v, e, i):
    if i.__class__ is int:
        return v[:i] + (e,) + v[i + 1:]
    raise Unsupported('insertelement at a symbolic index')


def freeze(v, ty):
    if v is UNDEF:
        if ty[0] == 'f':
            return 0.0
        return 0
    if v.__class__ is tuple:
        if ty[0] in ('vec', 'arr'):
            return tuple(freeze(x, ty[2]) for x in v)
        return tuple(freeze(x, t) for x, t in zip(v, ty[1]))
    return v


def gepadd(p, i, size, w):
    """p + sext(i)*size"""
    if i.__class__ is int:
        i = i - (1 << w) if i >> (w - 1) else i
        if p.__class__ is int:
            return (p + i * size) & 0xFFFFFFFFFFFFFFFF
    if i is UNDEF or p is UNDEF:
        return UNDEF
    if i.__class__ is not int and w < 64:
        i = T.S(i, w)
    return T.canon(T.ladd(p, T.lmulc(i, size)), 64)
