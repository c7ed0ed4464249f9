"""Term algebra of the symbolic executor.

Machine integers are Python ints (canonical, unsigned) when concrete and `Lin` when symbolic: an
exact integer-valued linear form  c + sum k_i * a_i  over atoms, standing for its residue modulo
2^w. `U(x, w)` / `S(x, w)` give the unsigned / signed machine value as an integer term. Atoms are
variables, floor quotients, residues, ite/min/max, products, table look-ups and float-to-int
results. Booleans are 0/1 or `B`. Floats are Python floats when concrete, else `F` (a DAG of the
exact IEEE operations performed). All terms are hash-consed, so identical values are identical
objects, and every integer term carries an interval.
"""
import ctypes
import math
import struct
from .irparse import UNDEF

_ids = [0]


def _nid():
    _ids[0] += 1
    return _ids[0]


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------------------------ atoms / Lin

class Atom:
    __slots__ = ('id', 'kind', 'args', 'lo', 'hi', 'lin')

    def __repr__(self):
        return show_atom(self)


class Lin:
    __slots__ = ('c', 't', 'lo', 'hi', 'id')

    def __repr__(self):
        return show(self)


_atoms = {}
_lins = {}


def _key(x):
    return ('L', x.id) if x.__class__ is Lin else x


def atom(kind, args, lo, hi):
    k = (kind,) + tuple(('t', a.id) if isinstance(a, (Lin, B, F, Atom)) else a for a in args)
    a = _atoms.get(k)
    if a is None:
        a = Atom()
        a.id = _nid()
        a.kind = kind
        a.args = args
        a.lo = lo
        a.hi = hi
        a.lin = None
        _atoms[k] = a
        a.lin = mklin(0, {a: 1})
    return a


def mklin(c, d):
    """Linear form from const and {atom: coef} (no zero coefficients); int if constant."""
    if not d:
        return c
    if len(d) > 1:
        d2 = recombine(d)
        if d2 is not None:
            c2, d = d2
            c += c2
            if not d:
                return c
    t = tuple(sorted(((a, k) for a, k in d.items()), key=_aid))
    key = (c, tuple((a.id, k) for a, k in t))
    x = _lins.get(key)
    if x is None:
        x = Lin()
        x.c = c
        x.t = t
        lo = hi = c
        for a, k in t:
            if k > 0:
                lo += k * a.lo
                hi += k * a.hi
            else:
                lo += k * a.hi
                hi += k * a.lo
        x.lo = lo
        x.hi = hi
        x.id = _nid()
        _lins[key] = x
    return x


def _aid(p):
    return p[0].id


def recombine(d):
    """k*Mod(y,n) + k*n*Div(y,n) -> k*y  and  k*Mod(y,n) + k*n*Mod(Div(y,n),b) -> k*Mod(y,n*b)."""
    mods = [a for a in d if a.kind == 'mod']
    if not mods:
        return None
    changed = False
    c = 0
    again = True
    while again:
        again = False
        for a in mods:
            k = d.get(a)
            if not k:
                continue
            y, n = a.args
            q = fdiv(y, n)
            if q.__class__ is not Lin:
                continue
            # exact quotient present?
            if all(d.get(b) == k * n * kk for b, kk in q.t):
                if not changed:
                    d = dict(d)
                    changed = True
                del d[a]
                for b, kk in q.t:
                    del d[b]
                c -= k * n * q.c
                c += y.c * k if y.__class__ is Lin else y * k
                for b, kk in y.t:
                    v = d.get(b, 0) + kk * k
                    if v:
                        d[b] = v
                    else:
                        del d[b]
                again = True
                break
            for b, kb in d.items():
                if b.kind == 'mod' and kb == k * n and b.args[0] is q:
                    if not changed:
                        d = dict(d)
                        changed = True
                    del d[a]
                    del d[b]
                    m = fmod(y, n * b.args[1])
                    if m.__class__ is int:
                        c += m * k
                    else:
                        c += m.c * k
                        for e, ke in m.t:
                            v = d.get(e, 0) + ke * k
                            if v:
                                d[e] = v
                            else:
                                d.pop(e, None)
                    again = True
                    break
            if again:
                mods = [x for x in d if x.kind == 'mod']
                break
    return (c, d) if changed else None


def ladd(a, b):
    ca, cb = a.__class__, b.__class__
    if ca is int:
        if cb is int:
            return a + b
        return _addc(b, a)
    if cb is int:
        return _addc(a, b)
    d = dict(a.t)
    for x, k in b.t:
        v = d.get(x, 0) + k
        if v:
            d[x] = v
        else:
            del d[x]
    return mklin(a.c + b.c, d)


def _addc(a, c):
    if c == 0:
        return a
    key = (a.c + c, tuple((x.id, k) for x, k in a.t))
    x = _lins.get(key)
    if x is None:
        x = Lin()
        x.c = a.c + c
        x.t = a.t
        x.lo = a.lo + c
        x.hi = a.hi + c
        x.id = _nid()
        _lins[key] = x
    return x


def lmulc(a, k):
    if a.__class__ is int:
        return a * k
    if k == 0:
        return 0
    if k == 1:
        return a
    key = (a.c * k, tuple((x.id, q * k) for x, q in a.t))
    x = _lins.get(key)
    if x is None:
        x = Lin()
        x.c = a.c * k
        x.t = tuple((y, q * k) for y, q in a.t)
        lo, hi = a.lo * k, a.hi * k
        x.lo, x.hi = (lo, hi) if k > 0 else (hi, lo)
        x.id = _nid()
        _lins[key] = x
    return x


def lsub(a, b):
    return ladd(a, lmulc(b, -1))


def lo(a):
    return a if a.__class__ is int else a.lo


def hi(a):
    return a if a.__class__ is int else a.hi


def lmul(a, b):
    if a.__class__ is int:
        return lmulc(b, a)
    if b.__class__ is int:
        return lmulc(a, b)
    # boolean-like factors
    for x, y in ((a, b), (b, a)):
        s = single(x)
        if s is not None and s.kind == 'ite':
            _, p, q = s.args
            if p.__class__ is int and q.__class__ is int:
                return ite(s.args[0], lmulc(y, p), lmulc(y, q))
    r = lmulc(b, a.c) if a.c else 0
    for x, k in a.t:
        if b.c:
            r = ladd(r, mklin(0, {x: k * b.c}))
        for y, q in b.t:
            p, s = (x, y) if x.id <= y.id else (y, x)
            vs = (p.lo * s.lo, p.lo * s.hi, p.hi * s.lo, p.hi * s.hi)
            l, h = min(vs), max(vs)
            if p is s:
                l = 0 if p.lo <= 0 <= p.hi else min(p.lo * p.lo, p.hi * p.hi)
            at = atom('mul', (p, s), l, h)
            r = ladd(r, mklin(0, {at: k * q}))
    return r


def single(x):
    """the atom if x is exactly that atom"""
    if x.__class__ is Lin and x.c == 0 and len(x.t) == 1 and x.t[0][1] == 1:
        return x.t[0][0]
    return None


def one_atom(x):
    """(c, k, atom) if x = c + k*atom"""
    if x.__class__ is Lin and len(x.t) == 1:
        return x.c, x.t[0][1], x.t[0][0]
    return None


def const_ite(x):
    """(B, p, q) if x is ite(B, p, q) with constant branches (after scaling)"""
    o = one_atom(x)
    if o and o[2].kind == 'ite':
        b, p, q = o[2].args
        if p.__class__ is int and q.__class__ is int:
            return b, o[0] + o[1] * p, o[0] + o[1] * q
    return None


_divmemo = {}
_modmemo = {}


def fdiv(x, m):
    if m == 1:
        return x
    if x.__class__ is int:
        return x // m
    r = _divmemo.get((x.id, m))
    if r is None:
        r = _divmemo[(x.id, m)] = _fdiv(x, m)
    return r


def _fdiv(x, m):
    if x.lo // m == x.hi // m:
        return x.lo // m
    q = {}
    rest = {}
    # x = m * high + low with 0 <= low < m, splitting coefficients
    qc, l = divmod(x.c, m)
    h = l
    for a, k in x.t:
        d, r = divmod(k, m)
        if d:
            q[a] = d
        l += r * a.lo
        h += r * a.hi
    if l >= 0 and h < m:
        return mklin(qc, q)
    q = {}
    for a, k in x.t:
        if k % m == 0:
            q[a] = k // m
        else:
            rest[a] = k
    qc, rc = divmod(x.c, m)
    if q:
        return ladd(mklin(qc, q), fdiv(mklin(rc, rest), m))
    if qc:
        return ladd(qc, fdiv(mklin(rc, rest), m))
    # all coefficients share a factor with m
    g = m
    for a, k in x.t:
        g = math.gcd(g, k)
    if g > 1:
        z = mklin(x.c // g, {a: k // g for a, k in x.t})
        return fdiv(z, m // g)
    s = one_atom(x)
    if s and s[1] == 1:
        a = s[2]
        if a.kind == 'div':
            y, n = a.args
            return fdiv(ladd(y, s[0] * n), m * n)
        if a.kind == 'mod' and s[0] == 0 and a.args[1] % m == 0:
            return fmod(fdiv(a.args[0], m), a.args[1] // m)
    low = low_part(x, m)
    if low:
        g, hc, high = low
        return fdiv(mklin(hc, high), m // g)
    ci = const_ite(x)
    if ci:
        return ite(ci[0], ci[1] // m, ci[2] // m)
    return atom('div', (x, m), x.lo // m, x.hi // m).lin


def low_part(x, m):
    """x = g*high + low with g | m and 0 <= low < g: (g, constant of high, terms of high)"""
    if len(x.t) < 2:
        return None
    for g in sorted({math.gcd(m, k) for a, k in x.t}, reverse=True):
        if g < 2:
            return None
        lc = x.c % g
        l = h = lc
        high = {}
        for a, k in x.t:
            if k % g == 0:
                high[a] = k // g
            elif k > 0:
                l += k * a.lo
                h += k * a.hi
            else:
                l += k * a.hi
                h += k * a.lo
        if l >= 0 and h < g and high:
            return g, (x.c - lc) // g, high
    return None


def fmod(x, m):
    if x.__class__ is int:
        return x % m
    if m == 1:
        return 0
    r = _modmemo.get((x.id, m))
    if r is None:
        r = _modmemo[(x.id, m)] = _fmod(x, m)
    return r


def _fmod(x, m):
    k = x.lo // m
    if k == x.hi // m:
        return _addc(x, -k * m)
    # reduce coefficients
    h = m // 2
    c = x.c % m
    d = {}
    extra = 0
    for a, k in x.t:
        if a.kind == 'mod' and (k * a.args[1]) % m == 0:
            extra = ladd(extra, lmulc(a.args[0], k))
            continue
        k2 = k % m
        if k2 > h:
            k2 -= m
        # keep a coefficient that was already small with its sign
        if abs(k) < m:
            k2 = k if abs(k) <= h else k2
        if k2:
            d[a] = k2
    y = mklin(c, d)
    if extra.__class__ is not int or extra:
        return fmod(ladd(y, extra), m)
    if y.__class__ is int:
        return y % m
    k = y.lo // m
    if k == y.hi // m:
        return _addc(y, -k * m)
    g = m
    for a, k in y.t:
        g = math.gcd(g, k)
    if g > 1:
        z = mklin(y.c // g, {a: k // g for a, k in y.t})
        return ladd(lmulc(fmod(z, m // g), g), y.c % g)
    low = low_part(y, m)
    if low:
        g, hc, high = low
        rest = mklin(y.c - g * hc, {a: k for a, k in y.t if k % g})
        return ladd(lmulc(fmod(mklin(hc, high), m // g), g), rest)
    ci = const_ite(y)
    if ci:
        return ite(ci[0], ci[1] % m, ci[2] % m)
    if y is not x:
        return fmod(y, m)
    return atom('mod', (y, m), 0, m - 1).lin


def U(x, w):
    if x.__class__ is int:
        return x & ((1 << w) - 1)
    if x.lo >= 0 and x.hi >> w == 0:
        return x
    return fmod(x, 1 << w)


def S(x, w):
    h = 1 << (w - 1)
    if x.__class__ is int:
        x &= (1 << w) - 1
        return x - (1 << w) if x >= h else x
    if x.lo >= -h and x.hi < h:
        return x
    return ladd(fmod(_addc(x, h), 1 << w), -h)


def canon(x, w):
    """int results back to canonical form"""
    return x & ((1 << w) - 1) if x.__class__ is int else x


def sgn(c, w):
    return c - (1 << w) if c >> (w - 1) else c


# ------------------------------------------------------------------------------------ booleans

class B:
    __slots__ = ('id', 'kind', 'args', '_neg')

    def __repr__(self):
        return show_b(self)


_bools = {}


def mkb(kind, args):
    k = (kind,) + tuple(a.id if isinstance(a, (Lin, B, F)) else a for a in args)
    b = _bools.get(k)
    if b is None:
        b = B()
        b.id = _nid()
        b.kind = kind
        b.args = args
        b._neg = None
        _bools[k] = b
    return b


def bvar(name):
    return mkb('bv', (name,))


def bnot(b):
    if b.__class__ is int:
        return 1 - b
    n = b._neg
    if n is None:
        if b.kind == 'not':
            n = b.args[0]
        elif b.kind == 'le':
            n = le0(ladd(lmulc(b.args[0], -1), 1))
        else:
            n = mkb('not', (b,))
        b._neg = n
        if n.__class__ is B and n._neg is None:
            n._neg = b
    return n


def band(*bs):
    out = []
    seen = set()
    for b in bs:
        if b.__class__ is int:
            if not b:
                return 0
            continue
        for x in (b.args if b.kind == 'and' else (b,)):
            if x.id not in seen:
                seen.add(x.id)
                out.append(x)
    for x in out:
        n = x._neg
        if n is not None and n.__class__ is B and n.id in seen:
            return 0
    if not out:
        return 1
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda b: b.id)
    return mkb('and', tuple(out))


def bor(*bs):
    return bnot(band(*[bnot(b) for b in bs]))


def bxor(a, b):
    if a.__class__ is int:
        return bnot(b) if a else b
    if b.__class__ is int:
        return bnot(a) if b else a
    if a is b:
        return 0
    if bnot(a) is b:
        return 1
    return bor(band(a, bnot(b)), band(bnot(a), b))


def bite(c, a, b):
    if c.__class__ is int:
        return a if c else b
    if a is b:
        return a
    if a.__class__ is int and b.__class__ is int:
        return (c if a else bnot(c)) if a != b else a
    return bor(band(c, a), band(bnot(c), b))


def le0(x):
    if x.__class__ is int:
        return 1 if x <= 0 else 0
    if x.hi <= 0:
        return 1
    if x.lo > 0:
        return 0
    ci = const_ite(x)
    if ci:
        return bite(ci[0], int(ci[1] <= 0), int(ci[2] <= 0))
    g = 0
    for a, k in x.t:
        g = math.gcd(g, k)
    if g > 1:
        x = mklin(-((-x.c) // g), {a: k // g for a, k in x.t})
        return le0(x)
    if len(x.t) == 1:
        # floor quotient: c + Div(y,m) <= 0  <=>  y <= m*(-c) + m - 1 ; -Div(y,m)+c <= 0 <=> y >= m*c
        a, k = x.t[0]
        if a.kind == 'div' and k == 1:
            y, m = a.args
            return le0(_addc(y, -(m * (-x.c) + m - 1)))
        if a.kind == 'div' and k == -1:
            y, m = a.args
            return le0(ladd(lmulc(y, -1), m * x.c))
        if a.kind == 'min' and k == 1:
            return bor(le0(ladd(a.args[0], x.c)), le0(ladd(a.args[1], x.c)))
        if a.kind == 'max' and k == 1:
            return band(le0(ladd(a.args[0], x.c)), le0(ladd(a.args[1], x.c)))
        if a.kind == 'min' and k == -1:
            return band(le0(ladd(lmulc(a.args[0], -1), x.c)), le0(ladd(lmulc(a.args[1], -1), x.c)))
        if a.kind == 'max' and k == -1:
            return bor(le0(ladd(lmulc(a.args[0], -1), x.c)), le0(ladd(lmulc(a.args[1], -1), x.c)))
    return mkb('le', (x,))


def eq0(x):
    if x.__class__ is int:
        return 1 if x == 0 else 0
    if x.lo > 0 or x.hi < 0:
        return 0
    g = 0
    for a, k in x.t:
        g = math.gcd(g, k)
    if x.c % g:
        return 0
    if g > 1 or x.t[0][1] < 0:
        if x.t[0][1] < 0:
            g = -g
        x = mklin(x.c // g, {a: k // g for a, k in x.t})
        return eq0(x)
    ci = const_ite(x)
    if ci:
        return bite(ci[0], int(ci[1] == 0), int(ci[2] == 0))
    if x.lo == 0:
        return le0(x)
    if x.hi == 0:
        return le0(lmulc(x, -1))
    return mkb('eq', (x,))


def icmp(pred, a, b, w):
    """compare two machine values of width w; 0/1 or B"""
    if a.__class__ is int and b.__class__ is int:
        if pred == 'eq':
            return int(a == b)
        if pred == 'ne':
            return int(a != b)
        if pred[0] == 's':
            a, b = sgn(a, w), sgn(b, w)
        return int({'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pred[1:]])
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if a is b:
        return int(pred in ('eq', 'ne', 'ule', 'uge', 'sle', 'sge') and pred != 'ne')
    if pred in ('eq', 'ne'):
        x, y = U(a, w), U(b, w)
        if (x.__class__ is Lin and len(x.t) == 1 and x.t[0][0].kind == 'mod' and a.__class__ is Lin) or \
           (y.__class__ is Lin and len(y.t) == 1 and y.t[0][0].kind == 'mod' and b.__class__ is Lin):
            x2, y2 = S(a, w), S(b, w)
            if x2 is a or y2 is b:
                x, y = x2, y2
        e = eq0(lsub(x, y))
        return e if pred == 'eq' else bnot(e)
    f = S if pred[0] == 's' else U
    x, y = f(a, w), f(b, w)
    p = pred[1:]
    if p == 'lt':
        return le0(ladd(lsub(x, y), 1))
    if p == 'le':
        return le0(lsub(x, y))
    if p == 'gt':
        return le0(ladd(lsub(y, x), 1))
    return le0(lsub(y, x))


# ------------------------------------------------------------------------------------ ite / min / max

def ite(c, a, b):
    if c.__class__ is int:
        return a if c else b
    if a is b or (a.__class__ is int and b.__class__ is int and a == b):
        return a
    if c.kind == 'not':
        return ite(c.args[0], b, a)
    if c.kind == 'le':
        L = c.args[0]
        D = lsub(a, b)
        if D is L or D is _addc(L, -1):
            return lmin(a, b)
        N = lmulc(L, -1)
        if D is N or D is _addc(N, 1):
            return lmax(a, b)
    s = single(a) if a.__class__ is Lin else None
    if s is not None and s.kind == 'ite' and s.args[0] is c:
        return ite(c, s.args[1], b)
    s = single(b) if b.__class__ is Lin else None
    if s is not None and s.kind == 'ite' and s.args[0] is c:
        return ite(c, a, s.args[2])
    # pull out a common additive constant part
    l, h = min(lo(a), lo(b)), max(hi(a), hi(b))
    # interval refinement when the condition bounds one of the branches
    if c.kind == 'le':
        l1, h1 = refine(c.args[0], a)
        l2, h2 = refine(ladd(lmulc(c.args[0], -1), 1), b)
        if l1 <= h1 and l2 <= h2:
            l, h = min(l1, l2), max(h1, h2)
    return atom('ite', (c, a, b), l, h).lin


def refine(L, x):
    """interval of x given L <= 0, when x and L are affine in the same single form"""
    l, h = lo(x), hi(x)
    if x.__class__ is not Lin or L.__class__ is not Lin:
        return l, h
    if len(L.t) != len(x.t) or any(p[0] is not q[0] for p, q in zip(L.t, x.t)):
        return l, h
    k = L.t[0][1]
    q = x.t[0][1]
    for (a, p), (b, s) in zip(L.t, x.t):
        if p * q != s * k:
            return l, h
    # L = (k/q) (x - x.c) + L.c <= 0
    if (k > 0) == (q > 0):
        # x - x.c <= -L.c * q / k
        v = (-L.c * abs(q)) // abs(k)
        h = min(h, x.c + v)
    else:
        v = -((-L.c * abs(q)) // abs(k))
        l = max(l, x.c + v)
    return l, h


def lmin(a, b):
    if a is b:
        return a
    if hi(a) <= lo(b):
        return a
    if hi(b) <= lo(a):
        return b
    if a.__class__ is int:
        a, b = b, a
    if b.__class__ is int:
        ci = const_ite(a)
        if ci:
            return ite(ci[0], min(ci[1], b), min(ci[2], b))
    elif b.id < a.id:
        a, b = b, a
    return atom('min', (a, b), min(lo(a), lo(b)), min(hi(a), hi(b))).lin


def lmax(a, b):
    if a is b:
        return a
    if lo(a) >= hi(b):
        return a
    if lo(b) >= hi(a):
        return b
    if a.__class__ is int:
        a, b = b, a
    if b.__class__ is int:
        ci = const_ite(a)
        if ci:
            return ite(ci[0], max(ci[1], b), max(ci[2], b))
        # max(min(x,h),l) with l<=h : keep the order min-outermost for a unique clamp form
        s = single(a)
        if s is not None and s.kind == 'min' and s.args[1].__class__ is int and b <= s.args[1]:
            return lmin(lmax(s.args[0], b), s.args[1])
    elif b.id < a.id:
        a, b = b, a
    return atom('max', (a, b), max(lo(a), lo(b)), max(hi(a), hi(b))).lin


def clamp(x, l, h):
    return lmin(lmax(x, l), h)


def select_int(c, a, b, w):
    """machine-level select"""
    if c.__class__ is int:
        return a if c else b
    if a is b:
        return a
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if c is UNDEF:
        return UNDEF
    if w == 1:
        return bite(c, a, b)
    if a.__class__ is int:
        if b.__class__ is Lin and (b.lo < 0 or (a >> (w - 1) and b.hi < 0)):
            a = sgn(a, w)
    elif b.__class__ is int:
        if a.lo < 0 or (b >> (w - 1) and a.hi < 0):
            b = sgn(b, w)
    # branches that are residues of the same linear expression the condition talks about
    return canon(ite(c, a, b), w)


def b2i(b):
    """zext i1"""
    if b.__class__ is int:
        return b
    if b is UNDEF:
        return b
    return ite(b, 1, 0)


def i2b(x):
    """trunc to i1"""
    if x.__class__ is int:
        return x & 1
    if x is UNDEF:
        return x
    return eq0(ladd(fmod(x, 2), -1))


# ------------------------------------------------------------------------------------ bit operations

def tz(c):
    return (c & -c).bit_length() - 1 if c else 1 << 30


def lin_tz(x):
    if x.__class__ is int:
        return tz(x)
    r = tz(x.c)
    for a, k in x.t:
        r = min(r, tz(k))
    return r


def onebits(x):
    """a mask of the bits that can be set in x (x >= 0)"""
    if x.__class__ is int:
        return x
    if x.lo < 0:
        return -1
    items = [(tz(x.c & (1 << i)), 1 << i) for i in range(x.c.bit_length()) if x.c >> i & 1] if x.c > 0 else []
    if x.c < 0:
        return (1 << x.hi.bit_length()) - 1
    for a, k in x.t:
        if k < 0 or a.lo < 0:
            return (1 << x.hi.bit_length()) - (1 << min(lin_tz(x), x.hi.bit_length()))
        items.append((tz(k), k * a.hi))
    items.sort()
    mask = 0
    base = top = 0
    for z, h in items:
        if top < 1 << z:
            if top:
                mask |= (1 << top.bit_length()) - (1 << base)
            base, top = z, h
        else:
            top += h
    if top:
        mask |= (1 << top.bit_length()) - (1 << base)
    return mask


def band_c(x, m, w):
    """x & m for constant m"""
    if m == 0:
        return 0
    if m == (1 << w) - 1:
        return x
    ci = const_ite(x) if x.__class__ is Lin else None
    if ci:
        return ite(ci[0], ci[1] & m, ci[2] & m)
    runs = []
    i = 0
    while i < w:
        if m >> i & 1:
            j = i
            while j < w and m >> j & 1:
                j += 1
            runs.append((i, j))
            i = j
        else:
            i += 1
    if len(runs) > 6:
        return None
    x0 = x
    r = 0
    ux = None
    for i, j in runs:
        if i == 0:
            p = fmod(x, 1 << j)
        else:
            if ux is None:
                ux = U(x, w)
            p = fdiv(ux, 1 << i)
            p = fmod(p, 1 << (j - i))
            p = lmulc(p, 1 << i)
        r = ladd(r, p)
    return r


def and_(a, b, w):
    if a is b:
        return a
    if a is UNDEF or b is UNDEF:
        if a.__class__ is int and a == 0 or b.__class__ is int and b == 0:
            return 0
        return UNDEF
    if a.__class__ is int:
        a, b = b, a
    if b.__class__ is int:
        if a.__class__ is int:
            return a & b
        r = band_c(a, b, w)
        if r is not None:
            return canon(r, w)
        a, b = U(a, w), b
        return atom('bit', ('and', a, b, w), 0, min(hi(a), b)).lin
    for x, y in ((a, b), (b, a)):
        ci = const_ite(x)
        if ci:
            M = (1 << w) - 1
            return select_int(ci[0], and_(y, ci[1] & M, w), and_(y, ci[2] & M, w), w)
    a, b = U(a, w), U(b, w)
    if a.__class__ is int or b.__class__ is int:
        return and_(a, b, w)
    if a.id > b.id:
        a, b = b, a
    if a.lo >= 0 and b.lo >= 0 and not onebits(a) & onebits(b):
        return 0
    return atom('bit', ('and', a, b, w), 0, min(a.hi, b.hi)).lin


def or_(a, b, w, disjoint=False):
    if a is b:
        return a
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if a.__class__ is int and b.__class__ is int:
        return a | b
    if a.__class__ is int:
        a, b = b, a
    if b.__class__ is int and b == 0:
        return a
    if disjoint:
        return canon(ladd(a, b), w)
    for x, y in ((a, b), (b, a)):
        ci = const_ite(x) if x.__class__ is Lin else None
        if ci:
            M = (1 << w) - 1
            return select_int(ci[0], or_(y, ci[1] & M, w), or_(y, ci[2] & M, w), w)
    x = and_(a, b, w)
    ua, ub = U(a, w), U(b, w)
    return canon(lsub(ladd(ua, ub), x), w)


def xor_(a, b, w):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if a is b:
        return 0
    if a.__class__ is int and b.__class__ is int:
        return a ^ b
    if a.__class__ is int:
        a, b = b, a
    if b.__class__ is int:
        if b == 0:
            return a
        if b == (1 << w) - 1:
            return canon(ladd(lmulc(a, -1), -1), w)
        if b == 1 << (w - 1):
            return canon(ladd(a, b), w)
    for x, y in ((a, b), (b, a)):
        ci = const_ite(x) if x.__class__ is Lin else None
        if ci:
            M = (1 << w) - 1
            return select_int(ci[0], xor_(y, ci[1] & M, w), xor_(y, ci[2] & M, w), w)
    x = and_(a, b, w)
    return canon(lsub(ladd(U(a, w), U(b, w)), lmulc(x, 2)), w)


# ------------------------------------------------------------------------------------ floats

class F:
    """Symbolic float: node of the DAG of IEEE operations. fmt is 16, 32 or 64."""
    __slots__ = ('id', 'kind', 'args', 'fmt', 'enc')

    def __repr__(self):
        return show_f(self)


_floats = {}


def fkey(a):
    if a.__class__ is float:
        return struct.pack('<d', a)
    if isinstance(a, (Lin, B, F)):
        return ('t', a.id)
    return a


def mkf(kind, args, fmt):
    k = (kind, fmt) + tuple(fkey(a) for a in args)
    f = _floats.get(k)
    if f is None:
        f = F()
        f.id = _nid()
        f.kind = kind
        f.args = args
        f.fmt = fmt
        f.enc = None
        _floats[k] = f
    return f


_f32 = struct.Struct('<f')
_f16 = struct.Struct('<e')
_f64 = struct.Struct('<d')
_u32 = struct.Struct('<I')
_u16 = struct.Struct('<H')
_u64 = struct.Struct('<Q')


def rnd(x, fmt):
    if fmt == 32:
        try:
            return _f32.unpack(_f32.pack(x))[0]
        except OverflowError:
            return math.copysign(math.inf, x)
    if fmt == 64:
        return x
    try:
        return _f16.unpack(_f16.pack(x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


def fma_c(a, b, c, fmt):
    if fmt == 64:
        from fractions import Fraction
        if math.isfinite(a) and math.isfinite(b) and math.isfinite(c):
            r = Fraction(a) * Fraction(b) + Fraction(c)
            if r == 0:
                return a * b + c
            return float(r)
        return a * b + c
    p = a * b  # exact for f32 operands
    s = p + c
    if math.isinf(s) or s != s:
        return rnd(s, fmt)
    bb = s - p
    e = (p - (s - bb)) + (c - bb)
    if e:
        n = _u64.unpack(_f64.pack(s))[0]
        if not n & 1:
            n += 1 if (e > 0) == (s > 0) else -1
            s = _f64.unpack(_u64.pack(n))[0]
    return rnd(s, fmt)


def fdiv_c(a, b):
    if b == 0:
        if a == 0 or a != a:
            return math.nan
        return math.copysign(math.inf, a) * math.copysign(1.0, b)
    try:
        return a / b
    except OverflowError:
        return math.copysign(math.inf, a)


def fmul_c(a, b):
    return a * b


_fhi = {}


def fhi(a):
    """upper bound of a float that is known to be finite and not below +0; None: not known"""
    if a.__class__ is float:
        return a if math.isfinite(a) and math.copysign(1.0, a) > 0 else None
    if a.__class__ is not F:
        return None
    if a.id in _fhi:
        return _fhi[a.id]
    r = None
    if a.kind == 'fvar':
        r = a.args[2] if a.args[1] >= 0 else None     # an input of -0 is outside the bounds
    elif a.kind == 'i2f':
        if lo(a.args[0]) >= 0:
            r = hi(a.args[0]) * 1.001
    elif a.kind in ('fmul', 'fadd', 'fma'):
        v = [fhi(x) for x in a.args]
        if None not in v:
            r = v[0] * v[1] if a.kind == 'fmul' else v[0] + v[1] if a.kind == 'fadd' else v[0] * v[1] + v[2]
            r = r * 1.001 if r < 1e30 else None
    elif a.kind == 'f2f':
        r = fhi(a.args[0])
        r = r * 1.001 if r is not None else None
    elif a.kind == 'fite':
        v = [fhi(x) for x in a.args[1:]]
        r = max(v) if None not in v else None
    if r is not None and a.fmt == 16 and r > 65000:
        r = None            # could overflow
    _fhi[a.id] = r
    return r


_nmz = {}


def never_mz(a):
    """is it known that this float is never -0?"""
    if a.__class__ is float:
        return a != 0 or math.copysign(1.0, a) > 0
    if fhi(a) is not None:
        return True
    if a.__class__ is not F:
        return False
    if a.id in _nmz:
        return _nmz[a.id]
    r = False
    if a.kind == 'i2f':
        r = True
    elif a.kind == 'fadd':
        r = never_mz(a.args[0]) or never_mz(a.args[1])
    elif a.kind == 'f2f' and a.fmt > a.args[1]:
        r = never_mz(a.args[0])
    elif a.kind == 'fma':
        k, x, c = a.args
        if x.__class__ is float:
            k, x = x, k
        # no underflow: the product of a constant and an integer
        r = k.__class__ is float and abs(k) > 1e-20 and x.__class__ is F and x.kind == 'i2f' and never_mz(c)
    _nmz[a.id] = r
    return r


def fbin(op, a, b, fmt):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if a.__class__ is float and b.__class__ is float:
        if op == 'fadd':
            return rnd(a + b, fmt)
        if op == 'fsub':
            return rnd(a - b, fmt)
        if op == 'fmul':
            return rnd(a * b, fmt)
        if op == 'fdiv':
            return rnd(fdiv_c(a, b), fmt)
        return math.fmod(a, b)
    if op == 'fmul':
        if b.__class__ is float and b == 1.0:
            return a
        if a.__class__ is float and a == 1.0:
            return b
        for x, y in ((a, b), (b, a)):
            if x.__class__ is float and x == 0 and fhi(y) is not None:
                return x
    if op == 'fadd':
        for x, y in ((a, b), (b, a)):
            if x.__class__ is float and x == 0 and (math.copysign(1.0, x) < 0 or never_mz(y)):
                return y
    if op == 'fdiv' and b.__class__ is float and b == 1.0:
        return a
    if op in ('fadd', 'fmul'):
        # commutative: fixed order
        if a.__class__ is float or (b.__class__ is not float and a.id > b.id):
            a, b = b, a
    return mkf(op, (a, b), fmt)


def ffma(a, b, c, fmt):
    if a is UNDEF or b is UNDEF or c is UNDEF:
        return UNDEF
    if a.__class__ is float and b.__class__ is float:
        if c.__class__ is float:
            return fma_c(a, b, c, fmt)
        if fmt == 32:
            p = a * b
            if rnd(p, 32) == p:
                return fbin('fadd', c, p, fmt)
    for x, y in ((a, b), (b, a)):
        if x.__class__ is float and x == 0 and fhi(y) is not None:
            return fbin('fadd', c, x, fmt)
    if a.__class__ is float or (b.__class__ is not float and a.id > b.id):
        a, b = b, a
    return mkf('fma', (a, b, c), fmt)


def fneg(a, fmt):
    if a is UNDEF:
        return a
    if a.__class__ is float:
        return -a
    return mkf('fneg', (a,), fmt)


def fabs(a, fmt):
    if a is UNDEF:
        return a
    if a.__class__ is float:
        return abs(a)
    return mkf('fabs', (a,), fmt)


def i2f(x, fmt, signed, w):
    if x is UNDEF:
        return x
    if x.__class__ is int:
        return i2f_c(sgn(x, w) if signed else x, fmt)
    x = S(x, w) if signed else U(x, w)
    if x.__class__ is int:
        return i2f_c(x, fmt)
    return mkf('i2f', (x,), fmt)


def i2f_c(x, fmt):
    if fmt == 64:
        return float(x)
    if abs(x) < 1 << 53:
        return rnd(float(x), fmt)
    # round-to-odd to 53 bits first
    n = abs(x)
    sh = n.bit_length() - 53
    m = n >> sh
    if n & ((1 << sh) - 1):
        m |= 1
    return math.copysign(rnd(math.ldexp(float(m), sh), fmt), x)


_libm = ctypes.CDLL('libm.so.6')


def _libm1(name, dbl):
    f = getattr(_libm, name if dbl else name + 'f')
    t = ctypes.c_double if dbl else ctypes.c_float
    f.restype = t
    f.argtypes = [t]
    return f


_libmf = {}


def round_away(x):
    if not math.isfinite(x) or abs(x) >= 4503599627370496.0:
        return x
    r = math.floor(abs(x))
    if abs(x) - r >= 0.5:
        r += 1
    return math.copysign(float(r), x)


def rint_even(x):
    if not math.isfinite(x) or abs(x) >= 4503599627370496.0:
        return x
    return math.copysign(float(round(x)), x)


def fun1(name, a, fmt):
    """sqrt, floor, ceil, trunc, round, rint, sin, cos, exp ..."""
    if a is UNDEF:
        return a
    if a.__class__ is float:
        return fun1_c(name, a, fmt)
    return mkf(name, (a,), fmt)


def fun1_c(name, a, fmt):
    if name in ('floor', 'ceil', 'trunc'):
        if not math.isfinite(a):
            return a
        r = {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc}[name](a)
        return math.copysign(float(r), a) if r == 0 else float(r)
    if name == 'round':
        return round_away(a)
    if name in ('rint', 'nearbyint', 'roundeven'):
        return rint_even(a)
    if name == 'sqrt':
        return rnd(math.sqrt(a), fmt) if a >= 0 else (a if a == 0 else math.nan)
    f = _libmf.get((name, fmt))
    if f is None:
        f = _libmf[(name, fmt)] = _libm1(name, fmt == 64)
    return float(f(a))


def fun2(name, a, b, fmt):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if a.__class__ is float and b.__class__ is float:
        return fun2_c(name, a, b, fmt)
    return mkf(name, (a, b), fmt)


def fun2_c(name, a, b, fmt):
    f = _libmf.get((name, fmt))
    if f is None:
        f = getattr(_libm, name if fmt == 64 else name + 'f')
        t = ctypes.c_double if fmt == 64 else ctypes.c_float
        f.restype = t
        f.argtypes = [t, t]
        _libmf[(name, fmt)] = f
    return float(f(a, b))


RCP = None   # hardware reciprocal estimates: float, 'rcp' or 'rcp14' -> float
_rcp = {}


def rcp(a, kind='rcp'):
    if a is UNDEF:
        return a
    if a.__class__ is float:
        if RCP is None:
            raise Unsupported('rcp without the hardware function')
        k = (a, kind)
        if k not in _rcp:
            _rcp[k] = RCP(a, kind)
        return _rcp[k]
    return mkf(kind, (a,), 32)


def fminmax(kind, a, b, fmt):
    """kind: 'minnum' 'maxnum' (IEEE-754 number variants) or 'x86min' 'x86max' (second operand wins)."""
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if a.__class__ is float and b.__class__ is float:
        return fminmax_c(kind, a, b)
    if a is b:
        return a
    return mkf(kind, (a, b), fmt)


def fminmax_c(kind, a, b):
    if kind == 'x86min':
        return a if a < b else b
    if kind == 'x86max':
        return a if a > b else b
    if a != a:
        return b
    if b != b:
        return a
    if a == b:
        neg = math.copysign(1, a) < 0
        if kind == 'minnum':
            return a if neg else b
        return b if neg else a
    if kind == 'minnum':
        return a if a < b else b
    return a if a > b else b


def fsel(c, a, b, fmt):
    if c.__class__ is int:
        return a if c else b
    if c is UNDEF:
        return UNDEF
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if a is b or (a.__class__ is float and b.__class__ is float and fkey(a) == fkey(b)):
        return a
    if c.kind == 'not':
        return fsel(c.args[0], b, a, fmt)
    if c.kind == 'fcmp':
        op, x, y = c.args
        # select(x < y, x, y) is a minimum (second operand on ties / NaN)
        if op in ('olt', 'ole') and same(a, x) and same(b, y):
            return fminmax('x86min' if op == 'olt' else 'lemin', a, b, fmt)
        if op == 'olt' and same(a, y) and same(b, x):
            return fminmax('x86max', a, b, fmt)
    return mkf('fite', (c, a, b), fmt)


def same(a, b):
    return a is b or (a.__class__ is float and b.__class__ is float and fkey(a) == fkey(b))


def fcmp(pred, a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if a.__class__ is float and b.__class__ is float:
        return fcmp_c(pred, a, b)
    # over finite values ordered and unordered predicates agree; NaN is excluded by the callers'
    # input domains, so one vocabulary is enough: olt, ole, oeq
    p = pred[1:]
    if pred == 'ord':
        return 1
    if pred == 'uno':
        for x in (a, b):
            if x.__class__ is F and x.kind == 'pow':
                return mkb('uno', (x,))
        return 0
    if p == 'gt':
        return _fcmp('olt', b, a)
    if p == 'ge':
        return _fcmp('ole', b, a)
    if p == 'lt':
        return _fcmp('olt', a, b)
    if p == 'le':
        return _fcmp('ole', a, b)
    if p == 'eq':
        return _fcmp('oeq', a, b)
    if p == 'ne':
        return bnot(_fcmp('oeq', a, b))
    raise Unsupported('fcmp ' + pred)


def _fcmp(op, a, b):
    if a is b:
        return int(op != 'olt')
    return mkb('fcmp', (op, a, b))


def fcmp_c(pred, a, b):
    if pred == 'ord':
        return int(a == a and b == b)
    if pred == 'uno':
        return int(a != a or b != b)
    if pred in ('true', 'false'):
        return int(pred == 'true')
    if a != a or b != b:
        return int(pred[0] == 'u')
    return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pred[1:]])


def f2f(a, f, t):
    if a is UNDEF:
        return a
    if a.__class__ is float:
        return rnd(a, t)
    if a.kind == 'f2f' and a.args[1] == t and f > t:
        return a.args[0]        # back from a wider format
    return mkf('f2f', (a, f), t)


def f2i(a, mode, w, signed, fmt, sat):
    """float to integer. mode 'trunc' or 'rint'; sat: saturating (Rust `as`), else x86 conversion
    (out of range gives the 'integer indefinite' 1<<(w-1)) or LLVM fptosi (out of range: poison)."""
    if a is UNDEF:
        return a
    if signed:
        l, h = -(1 << (w - 1)), (1 << (w - 1)) - 1
    else:
        l, h = 0, (1 << w) - 1
    if a.__class__ is float:
        return f2i_c(a, mode, w, l, h, sat)
    return atom('f2i', (a, mode, w, l, h, sat), l, h).lin


def f2i_c(a, mode, w, l, h, sat):
    M = (1 << w) - 1
    if a != a:
        return 0 if sat == 'sat' else (1 << (w - 1)) if sat == 'x86' else UNDEF
    if math.isinf(a):
        v = h + 1 if a > 0 else l - 1
    else:
        v = math.trunc(a) if mode == 'trunc' else int(rint_even(a))
    if v < l or v > h:
        if sat == 'sat':
            return (l if v < l else h) & M
        return (1 << (w - 1)) if sat == 'x86' else UNDEF
    return v & M


def fbits(a, fmt):
    """bits of a float as an integer term"""
    if a.__class__ is float:
        if fmt == 32:
            return _u32.unpack(_f32.pack(a))[0]
        if fmt == 64:
            return _u64.unpack(_f64.pack(a))[0]
        return _u16.unpack(_f16.pack(a))[0]
    if a is UNDEF:
        return a
    if a.kind == 'frombits':
        return a.args[0]
    if a.kind == 'cvtx':
        return ORIG[a.args[1]].args[0]
    if a.kind == 'fite' and any(e.__class__ is F and e.kind == 'frombits' for e in a.args[1:]):
        c, p, q = a.args
        return select_int(c, fbits(p, fmt), fbits(q, fmt), fmt)
    return atom('fbits', (a,), 0, (1 << fmt) - 1).lin


def frombits(x, fmt):
    if x.__class__ is int:
        x &= (1 << fmt) - 1
        if fmt == 32:
            return _f32.unpack(_u32.pack(x))[0]
        if fmt == 64:
            return _f64.unpack(_u64.pack(x))[0]
        return _f16.unpack(_u16.pack(x))[0]
    if x is UNDEF:
        return x
    s = single(x)
    if s is not None:
        if s.kind == 'fbits' and s.args[0].fmt == fmt:
            return s.args[0]
        if s.kind == 'ite':
            c, p, q = s.args
            if isfb(p, fmt) and isfb(q, fmt):
                return fsel(c, frombits(p, fmt), frombits(q, fmt), fmt)
    r = mkf('frombits', (x,), fmt)
    if CONVERSION:
        return CONVERSION[0](x, r, fmt) or r
    return r


# set by smt: recognises hand-written conversions between float formats
CONVERSION = []
ORIG = {}           # id of the original term of a recognised conversion


def isfb(x, fmt):
    if x.__class__ is int:
        # all-ones is a mask, not a number
        return x == 0 or (x & ((1 << fmt) - 1)) not in (0, (1 << fmt) - 1)
    s = single(x)
    if s is None:
        return False
    if s.kind == 'fbits':
        return True
    return s.kind == 'ite' and isfb(s.args[1], fmt) and isfb(s.args[2], fmt)


# ------------------------------------------------------------------------------------ variables

def ivar(name, l, h):
    return atom('var', (name,), l, h).lin


def fvar(name, l, h, fmt=32):
    """finite float variable in [l, h]"""
    return mkf('fvar', (name, l, h), fmt)


def tab(values, idx):
    """values[idx] for concrete values"""
    if idx.__class__ is int:
        return values[idx]
    return atom('tab', (tuple(values), idx), min(values), max(values)).lin


def uf(name, args, l, h):
    return atom('uf', (name,) + tuple(args), l, h).lin


# ------------------------------------------------------------------------------------ evaluation

class Eval:
    """Exact evaluation of terms under an assignment {variable name: value}."""

    def __init__(self, env, rcp=None):
        self.env = env
        self.memo = {}
        self.rcp = rcp

    def __call__(self, x):
        c = x.__class__
        if c is int or c is float:
            return x
        if c is Lin:
            r = x.c
            for a, k in x.t:
                r += k * self.atom(a)
            return r
        if c is B:
            return self.b(x)
        if c is F:
            return self.f(x)
        if c is tuple:
            return tuple(self(e) for e in x)
        raise Unsupported('eval %r' % (x,))

    def atom(self, a):
        v = self.memo.get(a.id)
        if v is None:
            v = self.memo[a.id] = self._atom(a)
        return v

    def _atom(self, a):
        k = a.kind
        g = a.args
        if k == 'var':
            return self.env.get(g[0], a.lo if a.lo > 0 else min(0, a.hi) if a.hi < 0 else 0)
        if k == 'div':
            return self(g[0]) // g[1]
        if k == 'mod':
            return self(g[0]) % g[1]
        if k == 'ite':
            return self(g[1]) if self(g[0]) else self(g[2])
        if k == 'min':
            return min(self(g[0]), self(g[1]))
        if k == 'max':
            return max(self(g[0]), self(g[1]))
        if k == 'mul':
            return self.atom(g[0]) * self.atom(g[1])
        if k == 'tab':
            return g[0][self(g[1])]
        if k == 'f2i':
            v = f2i_c(self(g[0]), g[1], g[2], g[3], g[4], g[5])
            if v is UNDEF:
                return g[3]
            return sgn(v, g[2]) if g[3] < 0 else v
        if k == 'fbits':
            return fbits(self(g[0]), g[0].fmt)
        if k == 'bit':
            x, y = self(g[1]), self(g[2])
            return {'and': x & y}[g[0]]
        raise Unsupported('eval atom ' + k)

    def b(self, x):
        v = self.memo.get(x.id)
        if v is None:
            v = self.memo[x.id] = self._b(x)
        return v

    def _b(self, x):
        k, g = x.kind, x.args
        if k == 'le':
            return int(self(g[0]) <= 0)
        if k == 'eq':
            return int(self(g[0]) == 0)
        if k == 'not':
            return 1 - self(g[0])
        if k == 'and':
            return int(all(self(e) for e in g))
        if k == 'bv':
            return int(self.env.get(g[0], 0))
        if k == 'uno':
            return int(math.isnan(self(g[0])))
        if k == 'fcmp':
            return fcmp_c(g[0], self(g[1]), self(g[2]))
        if k == 'rle':
            from fractions import Fraction
            r = g[0]
            for q, t in g[1]:
                r += q * Fraction(self(t))
            return int(r <= 0)
        raise Unsupported('eval bool ' + k)

    def f(self, x):
        v = self.memo.get(x.id)
        if v is None:
            v = self.memo[x.id] = self._f(x)
        return v

    def _f(self, x):
        k, g = x.kind, x.args
        if k == 'fvar':
            d = 0.0 if g[1] <= 0 <= g[2] else g[1]
            return float(self.env.get(g[0], d))
        if k in ('fadd', 'fsub', 'fmul', 'fdiv'):
            return fbin(k, self(g[0]), self(g[1]), x.fmt)
        if k == 'fma':
            return fma_c(self(g[0]), self(g[1]), self(g[2]), x.fmt)
        if k == 'fneg':
            return -self(g[0])
        if k == 'fabs':
            return abs(self(g[0]))
        if k == 'i2f':
            return i2f_c(self(g[0]), x.fmt)
        if k == 'fite':
            return self(g[1]) if self(g[0]) else self(g[2])
        if k == 'f2f':
            return rnd(self(g[0]), x.fmt)
        if k == 'cvtx':
            return self(ORIG[g[1]])
        if k == 'frombits':
            return frombits(self(g[0]) & ((1 << x.fmt) - 1), x.fmt)
        if k in ('minnum', 'maxnum', 'x86min', 'x86max'):
            return fminmax_c(k, self(g[0]), self(g[1]))
        if k in ('lemin',):
            a, b = self(g[0]), self(g[1])
            return a if a <= b else b
        if k in ('rcp', 'rcp14'):
            return rcp(self(g[0]), k)
        if k in ('pow', 'atan2', 'hypot'):
            return fun2_c(k, self(g[0]), self(g[1]), x.fmt)
        return fun1_c(k, self(g[0]), x.fmt)


# ------------------------------------------------------------------------------------ traversal

def children(x):
    c = x.__class__
    if c is Lin:
        return [a for a, _ in x.t]
    if c is B and x.kind == 'rle':
        return [t for _, t in x.args[1]]
    if c in (Atom, B, F):
        return [a for a in x.args if a.__class__ in (Lin, Atom, B, F)]
    return []


def support(x, memo=None):
    """names of the variables a term depends on (frozenset)"""
    if memo is None:
        memo = _supp
    c = x.__class__
    if c in (int, float) or x is UNDEF:
        return frozenset()
    r = memo.get(x.id)
    if r is not None:
        return r
    stack = [(x, False)]
    while stack:
        y, done = stack.pop()
        if y.id in memo:
            continue
        if done:
            if y.__class__ is Atom and y.kind == 'var' or y.__class__ is F and y.kind == 'fvar' or \
                    y.__class__ is B and y.kind == 'bv':
                memo[y.id] = frozenset((y.args[0],))
            else:
                s = frozenset()
                for k in children(y):
                    s |= memo[k.id]
                memo[y.id] = s
        else:
            stack.append((y, True))
            for k in children(y):
                if k.id not in memo:
                    stack.append((k, False))
    return memo[x.id]


_supp = {}


# ------------------------------------------------------------------------------------ printing

def show(x, d=4):
    if x.__class__ is not Lin:
        return repr(x)
    s = [str(x.c)] if x.c else []
    for a, k in x.t[:12]:
        s.append(('%d*' % k if k != 1 else '') + show_atom(a, d))
    if len(x.t) > 12:
        s.append('...')
    return '+'.join(s)


def show_atom(a, d=4):
    if a.kind == 'var':
        return a.args[0]
    if d <= 0:
        return a.kind + '#%d' % a.id
    return a.kind + '(' + ','.join(
        show(g, d - 1) if g.__class__ is Lin else show_f(g, d - 1) if g.__class__ is F else show_b(g, d - 1)
        if g.__class__ is B else str(g)[:30] for g in a.args) + ')'


def show_b(b, d=4):
    if d <= 0:
        return b.kind + '#%d' % b.id
    return b.kind + '(' + ','.join(
        show(g, d - 1) if g.__class__ is Lin else show_f(g, d - 1) if g.__class__ is F else show_b(g, d - 1)
        if g.__class__ is B else str(g) for g in b.args) + ')'


def show_f(f, d=4):
    if f.__class__ is not F:
        return repr(f)
    if f.kind == 'fvar':
        return f.args[0]
    if d <= 0:
        return f.kind + '#%d' % f.id
    return f.kind + '(' + ','.join(
        show(g, d - 1) if g.__class__ is Lin else show_f(g, d - 1) if g.__class__ is F else show_b(g, d - 1)
        if g.__class__ is B else str(g) for g in f.args) + ')'


def reset():
    """drop all interned terms (between independent jobs, to bound memory)"""
    for t in (_atoms, _lins, _bools, _floats, _divmemo, _modmemo, _supp, _fhi, _nmz):
        t.clear()
