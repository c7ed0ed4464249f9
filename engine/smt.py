"""SMT back end: B / Lin / F terms to z3.

Every query is first posed over the reals with exact relaxations of the integer operations (floor
quotients, residues) and sound enclosures of the float operations (each rounding adds an error
variable with a constant bound). UNSAT there settles it. Otherwise the model is rounded and
evaluated exactly; if it is spurious the query is posed over the integers, and then with the boxes
of the variables split. Whatever is left is reported as undecided (never as "holds").
"""
import math
import random
import struct
import time
from fractions import Fraction
import z3
from . import terms as T
from .terms import Lin, Atom, B, F, Unsupported, Eval
from .irparse import UNDEF


class Undecided(Exception):
    pass


# with LOOSE, a quotient or a power whose range is not known is any number (colour conversions divide by sums that
# are zero for black); without it such a range is an error
LOOSE = False
BIG = Fraction(2) ** 900
HUGE = Fraction(2) ** 1000
RCP_ERR = Fraction(3, 1 << 13)      # 1.5 * 2^-12, the architectural bound of rcpps


def fr(x):
    return Fraction(x)


def zq(q):
    q = Fraction(q)
    return z3.RealVal(str(q.numerator) if q.denominator == 1 else '%d/%d' % (q.numerator, q.denominator))


PREC = {16: 11, 32: 24, 64: 53}
EMIN = {16: -24, 32: -149, 64: -1074}


def pow2_of(q):
    """largest power of two (as Fraction) dividing the dyadic rational q; None for 0"""
    q = Fraction(q)
    if q == 0:
        return None
    n, d = q.numerator, q.denominator
    return Fraction(n & -n, d)


class FI:
    """static facts of a float node: interval of its real value and granularity"""
    __slots__ = ('lo', 'hi', 'g')

    def __init__(self, lo, hi, g):
        self.lo = lo
        self.hi = hi
        self.g = g


_fi = {}


def finfo(x):
    if x.__class__ is float:
        if not math.isfinite(x):
            raise Unsupported('infinite float constant')
        q = Fraction(x)
        return FI(q, q, pow2_of(q) or Fraction(1 << 200))
    r = _fi.get(x.id)
    if r is None:
        r = _fi[x.id] = _finfo(x)
    return r


def lingran(x):
    if x.__class__ is int:
        return Fraction(x & -x) if x else Fraction(1 << 200)
    g = Fraction(x.c & -x.c) if x.c else Fraction(1 << 200)
    for a, k in x.t:
        g = min(g, Fraction(k & -k))
    return g


def rounding(l, h, g, fmt):
    """(error bound, FI after rounding to fmt)"""
    m = max(abs(l), abs(h))
    if m >= BIG:
        return HUGE, FI(-HUGE, HUGE, None)
    lim = (1 << PREC[fmt])
    if g is not None and m <= lim * g and g >= Fraction(2) ** EMIN[fmt]:
        return 0, FI(l, h, g)
    # ulp(m)/2 over the binade of m
    if m == 0:
        return 0, FI(l, h, g)
    e = math.frexp(float(m))[1]
    if Fraction(2) ** e < m:
        e += 1
    err = Fraction(2) ** (e - PREC[fmt] - 1)
    tiny = Fraction(2) ** (EMIN[fmt] - 1)
    err = max(err, tiny)
    return err, FI(l - err, h + err, None)


def _finfo(x):
    k, g = x.kind, x.args
    f = x.fmt
    if k == 'fvar':
        return FI(Fraction(g[1]), Fraction(g[2]), None)
    if k == 'i2f':
        l, h = Fraction(T.lo(g[0])), Fraction(T.hi(g[0]))
        return rounding(l, h, lingran(g[0]), f)[1]
    if k in ('fadd', 'fsub', 'fmul', 'fdiv', 'fma'):
        l, h, gr = exact_range(x)
        return rounding(l, h, gr, f)[1]
    if k == 'fneg':
        a = finfo(g[0])
        return FI(-a.hi, -a.lo, a.g)
    if k == 'fabs':
        a = finfo(g[0])
        return FI(max(a.lo, -a.hi, Fraction(0)), max(abs(a.lo), abs(a.hi)), a.g)
    if k == 'fite':
        a, b = finfo(g[1]), finfo(g[2])
        return FI(min(a.lo, b.lo), max(a.hi, b.hi), mg(a.g, b.g))
    if k in ('minnum', 'x86min', 'lemin'):
        a, b = finfo(g[0]), finfo(g[1])
        return FI(min(a.lo, b.lo), min(a.hi, b.hi), mg(a.g, b.g))
    if k in ('maxnum', 'x86max'):
        a, b = finfo(g[0]), finfo(g[1])
        return FI(max(a.lo, b.lo), max(a.hi, b.hi), mg(a.g, b.g))
    if k == 'f2f':
        a = finfo(g[0])
        return rounding(a.lo, a.hi, a.g, f)[1] if g[1] > f else a
    if k == 'cvtx':
        a = finfo(g[0])
        return rounding(a.lo, a.hi, a.g, 16)[1]
    if k in ('rint', 'round', 'floor', 'ceil', 'trunc'):
        a = finfo(g[0])
        hf = Fraction(1, 2)
        l, h = {'rint': lambda: (math.ceil(a.lo - hf), math.floor(a.hi + hf)),
                'round': lambda: (math.ceil(a.lo - hf), math.floor(a.hi + hf)),
                'floor': lambda: (math.floor(a.lo), math.floor(a.hi)), 'ceil': lambda: (math.ceil(a.lo), math.ceil(a.hi)),
                'trunc': lambda: (math.trunc(a.lo), math.trunc(a.hi))}[k]()
        return FI(Fraction(l), Fraction(h), Fraction(1))
    if k in ('rcp', 'rcp14'):
        a = finfo(g[0])
        if a.lo <= 0 <= a.hi:
            if LOOSE:
                return FI(-HUGE, HUGE, None)
            raise Unsupported('rcp of a range containing zero')
        vs = [1 / a.lo, 1 / a.hi]
        l, h = min(vs), max(vs)
        return FI(min(l * (1 - RCP_ERR), l * (1 + RCP_ERR)), max(h * (1 - RCP_ERR), h * (1 + RCP_ERR)), None)
    if k == 'sqrt':
        a = finfo(g[0])
        return FI(Fraction(math.sqrt(max(a.lo, 0))) * Fraction(999999, 1000000), Fraction(math.sqrt(max(a.hi, 0))) * Fraction(1000001, 1000000), None)
    if k == 'frombits':
        big = Fraction(2) ** (128 if f == 32 else 16 if f == 16 else 1024)
        return FI(-big, big, None)
    if k in LIBM:
        try:
            return libm_range(k, [finfo(e) for e in g])
        except Unsupported:
            if LOOSE:
                return FI(-HUGE, HUGE, None)
            raise
    raise Unsupported('range of float ' + k)


LIBM = ('cbrt', 'sin', 'cos', 'atan', 'tanh', 'exp', 'exp2', 'log', 'log2', 'log10', 'pow', 'atan2', 'hypot')


def libm_range(k, a):
    """bounds of a library function, a little wider than its monotone extension says"""
    def out(l, h):
        if not (math.isfinite(l) and math.isfinite(h)):
            raise Unsupported('range of float ' + k)
        w = Fraction(1, 1 << 18)
        l, h = Fraction(l), Fraction(h)
        return FI(l - abs(l) * w - Fraction(1, 1 << 60), h + abs(h) * w + Fraction(1, 1 << 60), None)

    def mono(f):
        try:
            return out(f(float(a[0].lo)), f(float(a[0].hi)))
        except (OverflowError, ValueError):
            raise Unsupported('range of float ' + k)
    if k in ('sin', 'cos'):
        return out(-1.0, 1.0)
    if k == 'cbrt':
        return mono(lambda x: math.copysign(abs(x) ** (1 / 3), x))
    if k == 'hypot':
        return out(0.0, math.hypot(max(abs(float(a[0].lo)), abs(float(a[0].hi))), max(abs(float(a[1].lo)), abs(float(a[1].hi)))))
    if k == 'atan2':
        return out(-math.pi, math.pi)
    if k == 'pow':
        e = float(a[1].lo)
        if a[0].lo < 0 or a[1].lo != a[1].hi or (e < 0 and a[0].lo <= 0):
            raise Unsupported('range of float pow')
        v = (float(a[0].lo) ** e, float(a[0].hi) ** e)
        return out(min(v), max(v))
    return mono({'atan': math.atan, 'tanh': math.tanh, 'exp': math.exp, 'exp2': lambda x: 2.0 ** x, 'log': math.log,
                 'log2': math.log2, 'log10': math.log10}[k])


_tr = {}


def trange(x):
    """bounds of an integer term that also look through conversions from floats"""
    if x.__class__ is int:
        return x, x
    l = h = x.c
    for a, k in x.t:
        p, q = _tr.get(a.id) or arange(a)
        l += k * (p if k > 0 else q)
        h += k * (q if k > 0 else p)
    return l, h


def arange(a):
    l, h = a.lo, a.hi
    if a.kind == 'f2i':
        try:
            fi = finfo(a.args[0])
            if max(abs(fi.lo), abs(fi.hi)) < BIG:
                tr = a.args[1] == 'trunc'
                p = math.trunc(fi.lo) if tr else math.floor(fi.lo)
                q = math.trunc(fi.hi) if tr else math.ceil(fi.hi)
                if a.args[5] == 'sat' or p >= a.args[3] and q <= a.args[4]:
                    l, h = min(max(l, p), h), max(min(h, q), l)
        except Unsupported:
            pass
    _tr[a.id] = (l, h)
    return l, h


def refuted(c):
    """the condition fails by the bounds of its terms alone"""
    if c.__class__ is not T.B:
        return False
    neg = c.kind == 'not'
    b = c.args[0] if neg else c
    if b.kind not in ('le', 'eq'):
        return False
    l, h = trange(b.args[0])
    if b.kind == 'le':
        return h <= 0 if neg else l > 0
    return l == h == 0 if neg else l > 0 or h < 0


def mg(a, b):
    return None if a is None or b is None else min(a, b)


def exact_range(x):
    k, g = x.kind, x.args
    a, b = finfo(g[0]), finfo(g[1])
    if k == 'fadd':
        return a.lo + b.lo, a.hi + b.hi, mg(a.g, b.g)
    if k == 'fsub':
        return a.lo - b.hi, a.hi - b.lo, mg(a.g, b.g)
    if k in ('fmul', 'fma'):
        ps = (a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi)
        l, h = min(ps), max(ps)
        gr = None if a.g is None or b.g is None else a.g * b.g
        if k == 'fma':
            c = finfo(g[2])
            return l + c.lo, h + c.hi, mg(gr, c.g)
        return l, h, gr
    if k == 'fdiv':
        if b.lo <= 0 <= b.hi:
            if LOOSE:
                return -HUGE, HUGE, None
            raise Unsupported('division by a range containing zero')
        ps = (a.lo / b.lo, a.lo / b.hi, a.hi / b.lo, a.hi / b.hi)
        gr = None
        if b.lo == b.hi and a.g is not None:
            q = pow2_of(b.lo)
            if abs(b.lo) == q:
                gr = a.g / q
        return min(ps), max(ps), gr
    raise Unsupported(k)


class Enc:
    """one encoding of a set of conditions"""

    def __init__(self, ints):
        self.ints = ints
        self.memo = {}
        self.cons = []
        self.vars = {}
        self.n = 0
        self.keep = []

    def fresh(self, pre, integer=False):
        self.n += 1
        nm = '%s%d' % (pre, self.n)
        if self.ints and integer:
            v = z3.ToReal(z3.Int(nm)) if False else z3.Int(nm)
            return v
        return z3.Real(nm)

    def c(self, q):
        return zq(q)

    def num(self, e):
        """as a real expression"""
        return z3.ToReal(e) if self.ints and z3.is_int(e) else e

    def lin(self, x):
        """integer term"""
        if x.__class__ is int:
            return z3.IntVal(x) if self.ints else zq(x)
        r = self.memo.get(x.id)
        if r is None:
            parts = []
            if x.c:
                parts.append(z3.IntVal(x.c) if self.ints else zq(x.c))
            for a, k in x.t:
                e = self.atom(a)
                parts.append(e if k == 1 else (z3.IntVal(k) if self.ints else zq(k)) * e)
            r = parts[0] if len(parts) == 1 else z3.Sum(*parts)
            self.memo[x.id] = r
        return r

    def atom(self, a):
        r = self.memo.get(a.id)
        if r is None:
            r = self._atom(a)
            self.memo[a.id] = r
        return r

    def box(self, v, l, h):
        self.cons.append(v >= (z3.IntVal(l) if self.ints and z3.is_int(v) else zq(l)))
        self.cons.append(v <= (z3.IntVal(h) if self.ints and z3.is_int(v) else zq(h)))

    def _atom(self, a):
        k, g = a.kind, a.args
        if k == 'var':
            v = z3.Int(g[0]) if self.ints else z3.Real(g[0])
            self.vars[g[0]] = (v, 'i')
            self.box(v, a.lo, a.hi)
            return v
        if k in ('div', 'mod'):
            x, m = g
            # the quotient is shared between div and mod of the same pair
            key = ('q', x.id, m)
            q = self.memo.get(key)
            if q is None:
                q = self.fresh('q', True)
                e = self.lin(x)
                mm = z3.IntVal(m) if self.ints else zq(m)
                self.cons.append(mm * q <= e)
                self.cons.append(e <= mm * q + (m - 1))
                self.box(q, x.lo // m, x.hi // m)
                self.memo[key] = q
            if k == 'div':
                return q
            return self.lin(x) - (z3.IntVal(m) if self.ints else zq(m)) * q
        if k == 'ite':
            v = self.fresh('t', True)
            c = self.b(g[0])
            self.cons.append(z3.If(c, v == self.lin(g[1]), v == self.lin(g[2])))
            self.box(v, a.lo, a.hi)
            return v
        if k in ('min', 'max'):
            x, y = self.lin(g[0]), self.lin(g[1])
            v = self.fresh('m', True)
            if k == 'min':
                self.cons += [v <= x, v <= y, z3.Or(v == x, v == y)]
            else:
                self.cons += [v >= x, v >= y, z3.Or(v == x, v == y)]
            self.box(v, a.lo, a.hi)
            return v
        if k == 'mul':
            p, q = g
            x, y = self.atom(p), self.atom(q)
            v = self.fresh('p', True)
            if self.ints:
                self.cons.append(v == x * y)
            self.box(v, a.lo, a.hi)
            # McCormick envelope
            self.cons += [v >= p.lo * y + q.lo * x - p.lo * q.lo, v >= p.hi * y + q.hi * x - p.hi * q.hi,
                          v <= p.hi * y + q.lo * x - p.hi * q.lo, v <= p.lo * y + q.hi * x - p.lo * q.hi]
            return v
        if k == 'tab':
            v = self.fresh('tb', True)
            self.box(v, a.lo, a.hi)
            vals, ix = g
            e = self.lin(ix)
            if not self.ints and len(vals) > 12:
                # relaxed: constant ends, and between them a line with the largest deviations as its width
                n = len(vals)
                i0 = 0
                while i0 + 1 < n and vals[i0 + 1] == vals[0]:
                    i0 += 1
                j0 = n - 1
                while j0 > i0 + 1 and vals[j0 - 1] == vals[n - 1]:
                    j0 -= 1
                if i0:
                    self.cons.append(z3.Implies(e <= i0, v == vals[0]))
                if j0 < n - 1:
                    self.cons.append(z3.Implies(e >= j0, v == vals[n - 1]))
                if j0 > i0:
                    sl = Fraction(vals[j0] - vals[i0], j0 - i0)
                    dev = [vals[i] - sl * i for i in range(i0, j0 + 1)]
                    mid = z3.And(v >= zq(sl) * e + zq(min(dev)), v <= zq(sl) * e + zq(max(dev)))
                    self.cons.append(mid if not i0 and j0 == n - 1 else z3.Implies(z3.And(e >= i0, e <= j0), mid))
            elif self.ints or len(vals) <= 300:
                # piecewise
                i = 0
                n = len(vals)
                while i < n:
                    j = i
                    while j + 1 < n and vals[j + 1] == vals[i]:
                        j += 1
                    if i == j:
                        self.cons.append(z3.Implies(z3.And(e >= i, e <= i), v == vals[i]) if self.ints else
                                         z3.Implies(z3.And(e > zq(Fraction(2 * i - 1, 2)), e < zq(Fraction(2 * i + 1, 2))), v == vals[i]))
                    else:
                        self.cons.append(z3.Implies(z3.And(e >= i, e <= j), v == vals[i]))
                    i = j + 1
            return v
        if k == 'f2i':
            n = len(self.cons)
            try:
                return self.f2i(a)
            except Unsupported:
                # no range for the float: any integer of the result's range
                del self.cons[n:]
                v = self.fresh('fi', True)
                self.box(v, a.lo, a.hi)
                return v
        if k == 'bit':
            v = self.fresh('b', True)
            self.box(v, a.lo, a.hi)
            if self.ints:
                w = g[3]
                if w <= 32:
                    ex = z3.BV2Int(z3.Int2BV(self.lin(g[1]), w) & z3.Int2BV(self.lin(g[2]), w))
                    self.cons.append(v == ex)
            return v
        if k in ('fbits', 'uf'):
            v = self.fresh('o', True)
            self.box(v, a.lo, a.hi)
            return v
        raise Unsupported('encode atom ' + k)

    def f2i(self, a):
        x, mode, w, l, h, sat = a.args
        e = self.f(x)
        fi = finfo(x)
        v = self.fresh('i', True)
        vr = self.num(v)
        if mode == 'trunc':
            rl, rh = math.trunc(fi.lo), math.trunc(fi.hi)
        else:
            rl, rh = math.ceil(fi.lo - Fraction(1, 2)), math.floor(fi.hi + Fraction(1, 2))
        inside = rl >= l and rh <= h
        u = v if inside else self.fresh('iu', True)
        ur = self.num(u)
        half = zq(Fraction(1, 2))
        if fi.g is not None and fi.g >= 1:
            # the operand is a whole number
            self.cons.append(ur == e)
            self.box(u, math.ceil(fi.lo), math.floor(fi.hi))
        elif mode == 'trunc':
            if fi.lo >= 0:
                self.cons += [ur <= e, e < ur + 1]
            elif fi.hi <= 0:
                self.cons += [ur >= e, e > ur - 1]
            else:
                self.cons.append(z3.If(e >= 0, z3.And(ur <= e, e < ur + 1, ur >= 0), z3.And(ur >= e, e > ur - 1, ur <= 0)))
            self.box(u, rl, rh)
        else:
            self.cons += [ur - half <= e, e <= ur + half]
            self.box(u, math.floor(fi.lo), math.ceil(fi.hi))
        if not inside:
            if sat == 'sat':
                self.cons.append(z3.If(ur <= l, v == l, z3.If(ur >= h, v == h, v == u)))
            elif sat == 'x86':
                self.cons.append(z3.If(z3.Or(ur < l, ur > h), v == l, v == u))
            else:
                self.cons.append(z3.Or(ur < l, ur > h, v == u))
            self.box(v, l, h)
        return v

    def b(self, x):
        if x.__class__ is int:
            return z3.BoolVal(bool(x))
        r = self.memo.get(x.id)
        if r is None:
            r = self.memo[x.id] = self._b(x)
        return r

    def _b(self, x):
        k, g = x.kind, x.args
        if k == 'le':
            return self.lin(g[0]) <= 0
        if k == 'eq':
            return self.lin(g[0]) == 0
        if k == 'not':
            y = g[0]
            if y.kind == 'eq' and not self.ints:
                e = self.lin(y.args[0])
                return z3.Or(e >= 1, e <= -1)
            return z3.Not(self.b(y))
        if k == 'and':
            return z3.And(*[self.b(e) for e in g])
        if k == 'bv':
            v = z3.Bool('b!' + g[0])
            self.vars[g[0]] = (v, 'b')
            return v
        if k == 'uno':
            if finfo(g[0].args[0]).lo >= 0:
                return z3.BoolVal(False)
            self.n += 1
            return z3.Bool('nan%d' % self.n)
        if k == 'fcmp':
            a, b = self.f(g[1]), self.f(g[2])
            return a < b if g[0] == 'olt' else a <= b if g[0] == 'ole' else a == b
        if k == 'rle':
            return self.real(g) <= 0
        raise Unsupported('encode bool ' + k)

    def real(self, g):
        c, ts = g
        parts = [zq(c)]
        for q, t in ts:
            e = self.f(t) if t.__class__ in (F, float) else self.num(self.lin(t))
            parts.append(zq(q) * e)
        return z3.Sum(*parts)

    def f(self, x):
        if x.__class__ is float:
            return zq(Fraction(x))
        r = self.memo.get(x.id)
        if r is None:
            r = self.memo[x.id] = self._f(x)
        return r

    def rounded(self, e, l, h, g, fmt):
        err, fi = rounding(l, h, g, fmt)
        if not err:
            return e
        v = self.fresh('r')
        d = zq(err)
        self.cons += [v - e <= d, e - v <= d]
        return v

    def _f(self, x):
        k, g = x.kind, x.args
        if k == 'fvar':
            v = z3.Real(g[0])
            self.vars[g[0]] = (v, 'f')
            self.cons += [v >= zq(Fraction(g[1])), v <= zq(Fraction(g[2]))]
            return v
        if k == 'i2f':
            l, h = Fraction(T.lo(g[0])), Fraction(T.hi(g[0]))
            return self.rounded(self.num(self.lin(g[0])), l, h, lingran(g[0]), x.fmt)
        if k in ('fadd', 'fsub', 'fmul', 'fdiv', 'fma'):
            l, h, gr = exact_range(x)
            if max(abs(l), abs(h)) >= BIG:
                return self.fresh('any')
            a, b = self.f(g[0]), self.f(g[1])
            if k == 'fadd':
                e = a + b
            elif k == 'fsub':
                e = a - b
            elif k in ('fmul', 'fma'):
                e = self.product(g[0], g[1], a, b)
                if k == 'fma':
                    e = e + self.f(g[2])
            else:
                if g[1].__class__ is float:
                    e = a * zq(1 / Fraction(g[1]))
                else:
                    e = self.fresh('d')
                    self.cons.append(e >= zq(l))
                    self.cons.append(e <= zq(h))
                    self.cons.append(e * b == a)
            return self.rounded(e, l, h, gr, x.fmt)
        if k == 'fneg':
            return -self.f(g[0])
        if k == 'fabs':
            a = self.f(g[0])
            return z3.If(a >= 0, a, -a)
        if k == 'fite':
            v = self.fresh('s')
            self.cons.append(z3.If(self.b(g[0]), v == self.f(g[1]), v == self.f(g[2])))
            return v
        if k in ('minnum', 'x86min', 'lemin', 'maxnum', 'x86max'):
            p, q = finfo(g[0]), finfo(g[1])
            mn = k in ('minnum', 'x86min', 'lemin')
            if (p.hi <= q.lo) if mn else (p.lo >= q.hi):
                return self.f(g[0])
            if (q.hi <= p.lo) if mn else (q.lo >= p.hi):
                return self.f(g[1])
            a, b = self.f(g[0]), self.f(g[1])
            v = self.fresh('m')
            if mn:
                self.cons += [v <= a, v <= b, z3.Or(v == a, v == b)]
            else:
                self.cons += [v >= a, v >= b, z3.Or(v == a, v == b)]
            return v
        if k == 'f2f':
            a = finfo(g[0])
            e = self.f(g[0])
            return self.rounded(e, a.lo, a.hi, a.g, x.fmt) if g[1] > x.fmt else e
        if k == 'cvtx':
            a = finfo(g[0])
            return self.rounded(self.f(g[0]), a.lo, a.hi, a.g, 16)
        if k in ('rint', 'round', 'floor', 'ceil', 'trunc'):
            e = self.f(g[0])
            v = self.fresh('n', True)
            vr = self.num(v)
            fi = finfo(x)
            self.box(v, int(fi.lo), int(fi.hi))
            half = zq(Fraction(1, 2))
            if k in ('rint', 'round'):
                self.cons += [vr - half <= e, e <= vr + half]
            elif k == 'floor':
                self.cons += [vr <= e, e < vr + 1]
            elif k == 'ceil':
                self.cons += [vr >= e, e > vr - 1]
            else:
                self.cons.append(z3.If(e >= 0, z3.And(vr <= e, e < vr + 1), z3.And(vr >= e, e > vr - 1)))
            return vr
        if k in ('rcp', 'rcp14'):
            fi = finfo(x)
            v = self.fresh('rcp')
            if fi.hi >= BIG:
                return v
            a = finfo(g[0])
            self.cons += [v >= zq(fi.lo), v <= zq(fi.hi)]
            if a.lo != a.hi:
                e = self.f(g[0])
                self.cons += [v * e <= zq(1 + RCP_ERR), v * e >= zq(1 - RCP_ERR)]
            return v
        if k in ('sqrt', 'frombits'):
            fi = finfo(x)
            v = self.fresh('u')
            self.cons += [v >= zq(fi.lo), v <= zq(fi.hi)]
            return v
        if k in LIBM:
            # a library function: nothing but its bounds (equal arguments are one term already)
            v = self.fresh('u')
            fi = finfo(x)
            self.cons += [v >= zq(fi.lo), v <= zq(fi.hi)]
            return v
        raise Unsupported('encode float ' + k)

    def product(self, x, y, a, b):
        if x.__class__ is float or y.__class__ is float:
            return a * b
        p, q = finfo(x), finfo(y)
        if p.lo == p.hi:
            return zq(p.lo) * b
        if q.lo == q.hi:
            return zq(q.lo) * a
        v = self.fresh('p')
        self.cons += [v >= zq(p.lo) * b + zq(q.lo) * a - zq(p.lo * q.lo), v >= zq(p.hi) * b + zq(q.hi) * a - zq(p.hi * q.hi),
                      v <= zq(p.hi) * b + zq(q.lo) * a - zq(p.hi * q.lo), v <= zq(p.lo) * b + zq(q.hi) * a - zq(p.lo * q.hi)]
        return v


def rle(const, terms):
    """B: const + sum q*t <= 0 over the reals (t: Lin or F)"""
    c = Fraction(const)
    ts = []
    for q, t in terms:
        if t.__class__ in (int, float):
            c += Fraction(q) * Fraction(t)
        elif t.__class__ is Lin:
            c += Fraction(q) * t.c
            for a, k in t.t:
                ts.append((Fraction(q) * k, a.lin))
        elif q:
            ts.append((Fraction(q), t))
    d = {}
    for q, t in ts:
        d[t] = d.get(t, 0) + q
    ts = tuple(sorted(((q, t) for t, q in d.items() if q), key=lambda p: p[1].id))
    if not ts:
        return int(c <= 0)
    k = ('rle', c, tuple((q, t.id) for q, t in ts))
    b = T._bools.get(k)
    if b is None:
        b = B()
        b.id = T._nid()
        b.kind = 'rle'
        b.args = (c, ts)
        b._neg = None
        T._bools[k] = b
    return b


class Solver:
    def __init__(self, timeout=60000):
        self.cache = {}
        self.timeout = timeout
        self.queries = 0
        self.hits = 0
        self.secs = 0.0
        self.unsat = 0
        self.sat = 0

    def model(self, conds):
        """a model {name: value} satisfying all conditions exactly, or None if there is none"""
        cs = []
        for c in conds:
            if c.__class__ is int:
                if not c:
                    return None
                continue
            cs.append(c)
        if not cs:
            return {}
        if any(refuted(c) for c in cs):
            return None
        key, names = canonical(cs)
        r = self.cache.get(key)
        if r is not None:
            self.hits += 1
            if r == 'unsat':
                return None
            return {names[i]: v for i, v in r.items()}
        t = time.time()
        self.queries += 1
        try:
            m = self.solve(cs)
        finally:
            self.secs += time.time() - t
        if m is None:
            self.unsat += 1
            self.cache[key] = 'unsat'
        else:
            self.sat += 1
            idx = {n: i for i, n in enumerate(names)}
            self.cache[key] = {idx[n]: v for n, v in m.items() if n in idx}
        return m

    def holds(self, b, assuming=()):
        """None if b holds for all values (under the assumptions), else a counterexample"""
        return self.model(list(assuming) + [T.bnot(b)])

    def solve(self, cs):
        # 0: bit tricks go to the theory of bit-vectors (and IEEE floats)
        if any(has_bits(c, set()) for c in cs):
            r, m = self.bits(cs)
            if r == 'unsat':
                return None
            if m is not None:
                return m
        # 1: relaxation over the reals
        r, m = self.attempt(cs, False, 8000)
        if r == 'unsat':
            return None
        if m is not None:
            return m
        # open: corners and random points may break the assertion already
        m = self.points(cs, 12)
        if m is not None:
            return m
        # few inputs: bit-vectors again
        if few(cs):
            r, m = self.bits(cs)
            if r == 'unsat':
                return None
            if m is not None:
                return m
        # 2: integers
        r, m = self.attempt(cs, True, min(self.timeout, 15000))
        if r == 'unsat':
            return None
        if m is not None:
            return m
        # 3: split the boxes of the variables that matter
        return self.split(cs, {}, 12)

    def points(self, cs, tries):
        """a model among corners and random points: finds counterexamples where the solver is stuck, settles nothing else"""
        names = set()
        for c in cs:
            names |= T.support(c)
        rg = {}
        seen = set()

        def visit(t):
            if t.__class__ in (int, float, str, Fraction) or t is None:
                return
            if t.__class__ is tuple:
                for e in t:
                    visit(e)
                return
            if id(t) in seen:
                return
            seen.add(id(t))
            if t.__class__ is Atom and t.kind == 'var':
                rg[t.args[0]] = (t.lo, t.hi, 0)
            elif t.__class__ is F and t.kind == 'fvar':
                rg[t.args[0]] = (t.args[1], t.args[2], t.fmt)
            elif t.__class__ is B and t.kind == 'bv':
                rg[t.args[0]] = (0, 1, 0)
            else:
                for e in T.children(t):
                    visit(e)
        for c in cs:
            visit(c)
        if set(rg) != names:
            return None
        rng = random.Random(len(names))
        for n in range(tries):
            env = {}
            for x in sorted(rg):
                l, h, k = rg[x]
                if n % 3 == 0:
                    env[x] = rng.choice((l, h))
                else:
                    env[x] = T.rnd(rng.uniform(l, h), k) if k else rng.randint(l, h)
            try:
                ev = Eval(env)
                if all(ev(c) for c in cs):
                    return env
            except (Unsupported, IndexError, ZeroDivisionError, OverflowError, ValueError):
                return None
        return None

    def bits(self, cs):
        try:
            e = BVEnc(cs)
            zs = [e.b(c) for c in cs]
        except Unsupported:
            return 'unknown', None
        s = z3.SolverFor('QF_FPBV') if e.fp else z3.SolverFor('QF_BV')
        s.set('timeout', min(self.timeout, 15000))
        s.add(*(e.cons + zs))
        r = s.check()
        if r == z3.unsat:
            return 'unsat', None
        if r != z3.sat:
            return 'unknown', None
        mod = s.model()
        env = {}
        for n, (v, k) in e.vars.items():
            x = mod.eval(v, model_completion=True)
            env[n] = int(z3.is_true(x)) if k == 'b' else x.as_signed_long() if k == 'i' else \
                struct.unpack('<f', struct.pack('<I', x.as_long()))[0] if k == 32 else struct.unpack('<e', struct.pack('<H', x.as_long()))[0]
        try:
            ev = Eval(env)
            if all(ev(c) for c in cs):
                return 'sat', env
        except (Unsupported, IndexError, ZeroDivisionError, OverflowError, ValueError):
            pass
        return 'sat?', None

    def attempt(self, cs, ints, timeout, extra=None):
        e = Enc(ints)
        zs = [e.b(c) for c in cs]
        s = z3.Solver()
        s.set('timeout', timeout)
        for c in e.cons:
            s.add(c)
        for c in zs:
            s.add(c)
        if extra:
            for n, (l, h) in extra.items():
                if n in e.vars:
                    v, k = e.vars[n]
                    s.add(v >= l, v <= h)
        last = None
        for tries in range(6):
            r = s.check()
            if r == z3.unsat:
                return ('unsat' if tries == 0 else 'sat?'), None
            if r != z3.sat:
                return 'unknown', None
            mod = s.model()
            for rd in (0, 1, 2):
                env = self.extract(e, mod, rd, cs)
                try:
                    ev = Eval(env)
                    if all(ev(c) for c in cs):
                        return 'sat', env
                except (Unsupported, IndexError, ZeroDivisionError, OverflowError, ValueError):
                    pass
                if ints:
                    break
            # block this corner: move one variable
            nv = [(n, v) for n, (v, k) in e.vars.items() if k == 'i']
            if not nv:
                break
            import random
            rng = random.Random(tries)
            pick = rng.sample(nv, min(3, len(nv)))
            s.push() if False else None
            blk = []
            for n, v in pick:
                blk.append(v != mod.eval(v, model_completion=True))
            s.add(z3.Or(*blk))
        return 'sat?', None

    def extract(self, e, mod, rd, cs):
        env = {}
        for n, (v, k) in e.vars.items():
            x = mod.eval(v, model_completion=True)
            if k == 'b':
                env[n] = int(z3.is_true(x))
            elif k == 'i':
                if z3.is_int_value(x):
                    env[n] = x.as_long()
                elif z3.is_rational_value(x):
                    q = Fraction(x.numerator_as_long(), x.denominator_as_long())
                    env[n] = [round, math.floor, math.ceil][rd](q)
                else:
                    env[n] = int(x.approx(10).as_fraction()) if hasattr(x, 'approx') else 0
            else:
                if z3.is_rational_value(x):
                    q = Fraction(x.numerator_as_long(), x.denominator_as_long())
                elif z3.is_algebraic_value(x):
                    q = x.approx(20).as_fraction()
                else:
                    q = Fraction(0)
                env[n] = T.rnd(float(q), 32)
        return env

    def split(self, cs, box, depth):
        sup = set()
        for c in cs:
            sup |= T.support(c)
        e = Enc(False)
        for c in cs:
            e.b(c)
        cand = []
        for n in sorted(sup):
            if n in e.vars and e.vars[n][1] == 'i':
                a = T._atoms.get(('var', n))
                l, h = box.get(n, (a.lo, a.hi))
                if h > l:
                    cand.append((h - l, n, l, h))
        if not cand or depth == 0:
            raise Undecided('solver could not decide %s' % (cs[-1],))
        w, n, l, h = max(cand)
        mid = (l + h) // 2
        for a, b in ((l, mid), (mid + 1, h)):
            nb = dict(box)
            nb[n] = (a, b)
            r, m = self.attempt(cs, True, 20000, nb)
            if r == 'unsat':
                continue
            if m is not None:
                return m
            m = self.split(cs, nb, depth - 1)
            if m is not None:
                return m
        return None


def few(cs, bits=20):
    """do the conditions range over no more than so many bits of integer inputs"""
    n = 0
    for name in set().union(*[T.support(c) for c in cs]):
        a = T._atoms.get(('var', name))
        if a is None:
            return False
        n += (a.hi - a.lo).bit_length()
    return n <= bits


def has_bits(x, seen):
    """does the term contain bitwise operations or the bits of a float"""
    if x.__class__ in (int, float, str, Fraction) or x is None:
        return False
    if x.__class__ is tuple:
        return any(has_bits(e, seen) for e in x)
    if id(x) in seen:
        return False
    seen.add(id(x))
    if x.__class__ is Atom and x.kind in ('bit', 'fbits'):
        return True
    return any(has_bits(e, seen) for e in T.children(x))


class BVEnc:
    """terms as bit-vectors of one width that holds every intermediate value; floats by their bits"""

    def __init__(self, cs):
        self.memo, self.vars, self.cons = {}, {}, []
        self.fp = False
        big = [1]
        seen = set()

        def visit(x):
            if x.__class__ in (int, float, str, Fraction) or x is None:
                return
            if x.__class__ is tuple:
                for e in x:
                    visit(e)
                return
            if id(x) in seen:
                return
            seen.add(id(x))
            if x.__class__ is Lin:
                s = abs(x.c)
                for a, q in x.t:
                    s += abs(q) * max(abs(a.lo), abs(a.hi))
                big[0] = max(big[0], s)
            elif x.__class__ is Atom:
                big[0] = max(big[0], abs(x.lo), abs(x.hi))
            elif x.__class__ is B and x.kind == 'rle':
                d, c, ts = self.scaled(x)
                big[0] = max(big[0], abs(c) + sum(abs(q) * max(abs(t.lo), abs(t.hi)) for q, t in ts))
            for e in T.children(x):
                visit(e)
        for c in cs:
            visit(c)
        self.w = big[0].bit_length() + 2
        if self.w > 80:
            raise Unsupported('width')

    def scaled(self, x):
        """a condition over the rationals, in integers"""
        c, ts = x.args
        if any(t.__class__ is not Lin for q, t in ts):
            raise Unsupported('float in a linear condition')
        d = math.lcm(c.denominator, *[q.denominator for q, t in ts])
        return d, int(c * d), [(int(q * d), t) for q, t in ts]

    def k(self, v):
        return z3.BitVecVal(v, self.w)

    def lin(self, x):
        if x.__class__ is int:
            return self.k(x)
        r = self.memo.get(x.id)
        if r is None:
            r = self.k(x.c)
            for a, q in x.t:
                e = self.atom(a)
                r = r + (e if q == 1 else e * self.k(q))
            self.memo[x.id] = r
        return r

    def atom(self, a):
        r = self.memo.get(a.id)
        if r is None:
            r = self.memo[a.id] = self._atom(a)
        return r

    def _atom(self, a):
        k, g = a.kind, a.args
        if k == 'var':
            v = z3.BitVec(g[0], self.w)
            self.vars[g[0]] = (v, 'i')
            self.cons += [v >= self.k(a.lo), v <= self.k(a.hi)]
            return v
        if k in ('div', 'mod'):
            x, m = g
            if m & (m - 1):
                raise Unsupported('division')
            e = self.lin(x)
            return e >> self.k(m.bit_length() - 1) if k == 'div' else e & self.k(m - 1)
        if k == 'ite':
            return z3.If(self.b(g[0]), self.lin(g[1]), self.lin(g[2]))
        if k in ('min', 'max'):
            x, y = self.lin(g[0]), self.lin(g[1])
            return z3.If(x <= y if k == 'min' else x >= y, x, y)
        if k == 'mul':
            return self.atom(g[0]) * self.atom(g[1])
        if k == 'bit' and g[0] == 'and':
            return self.lin(g[1]) & self.lin(g[2]) & self.k((1 << g[3]) - 1)
        if k == 'fbits':
            return z3.ZeroExt(self.w - g[0].fmt, self.fvar(g[0]))
        raise Unsupported('encode atom ' + k)

    def fvar(self, x):
        if x.kind != 'fvar':
            raise Unsupported('float expression')
        r = self.memo.get(x.id)
        if r is None:
            r = z3.BitVec('f!' + x.args[0], x.fmt)
            self.vars[x.args[0]] = (r, x.fmt)
            self.memo[x.id] = r
            v = self.f(x)
            # -0 is outside the inputs
            self.cons += [z3.fpLEQ(v, self.f(x.args[2], x.fmt)), z3.fpGEQ(v, self.f(x.args[1], x.fmt)), r != z3.BitVecVal(1 << (x.fmt - 1), x.fmt)]
        return r

    def f(self, x, fmt=32):
        self.fp = True
        if x.__class__ is float:
            return z3.FPVal(x, z3.Float16() if fmt == 16 else z3.Float32())
        return z3.fpBVToFP(self.fvar(x), z3.Float16() if x.fmt == 16 else z3.Float32())

    def b(self, x):
        if x.__class__ is int:
            return z3.BoolVal(bool(x))
        k, g = x.kind, x.args
        if k == 'le':
            return self.lin(g[0]) <= self.k(0)
        if k == 'eq':
            return self.lin(g[0]) == self.k(0)
        if k == 'not':
            return z3.Not(self.b(g[0]))
        if k == 'and':
            return z3.And(*[self.b(e) for e in g])
        if k == 'bv':
            v = z3.Bool('b!' + g[0])
            self.vars[g[0]] = (v, 'b')
            return v
        if k == 'rle':
            d, c, ts = self.scaled(x)
            r = self.k(c)
            for q, t in ts:
                r = r + self.lin(t) * self.k(q)
            return r <= self.k(0)
        if k == 'fcmp':
            fmt = [e.fmt for e in g[1:3] if e.__class__ is F] + [32]
            a, b = self.f(g[1], fmt[0]), self.f(g[2], fmt[0])
            return z3.fpLT(a, b) if g[0] == 'olt' else z3.fpLEQ(a, b) if g[0] == 'ole' else z3.fpEQ(a, b)
        raise Unsupported('encode bool ' + k)


def canonical(cs):
    """structural key of the conditions up to variable names, and the names in order"""
    ids = {}
    names = []
    out = []

    def visit(x):
        c = x.__class__
        if c is int or c is float or c is str or c is Fraction or x is None:
            return x if c is not float else ('f', x.hex())
        if c is tuple:
            return tuple([visit(e) for e in x])
        if x is UNDEF:
            return 'undef'
        i = ids.get(x.id)
        if i is not None:
            return ('#', i)
        if c is Lin:
            k = ('L', x.c) + tuple([(visit(a), q) for a, q in x.t])
        elif c is Atom:
            if x.kind == 'var':
                names.append(x.args[0])
                k = ('v', len(names), x.lo, x.hi)
            elif x.kind == 'tab':
                k = ('tab', id_of_table(x.args[0]), visit(x.args[1]))
            else:
                k = (x.kind,) + tuple([visit(e) for e in x.args])
        elif c is B:
            if x.kind == 'bv':
                names.append(x.args[0])
                k = ('bv', len(names))
            else:
                k = (x.kind,) + tuple([visit(e) for e in x.args])
        else:
            if x.kind == 'fvar':
                names.append(x.args[0])
                k = ('fv', len(names), x.args[1], x.args[2], x.fmt)
            else:
                k = (x.kind, x.fmt) + tuple([visit(e) for e in x.args])
        n = len(ids)
        ids[x.id] = n
        out.append(k)
        return ('#', n)
    top = tuple([visit(c) for c in cs])
    return (top, tuple(out)), names


_tabs = {}


def id_of_table(t):
    return _tabs.setdefault(t, len(_tabs))


# ------------------------------------------------------------------------ hand-written float conversions

HALF_LIMIT = 65000
_conv = {}
HINTS = []          # values a conversion found in the code gets wrong: (format of its argument, value)
LEMMAS = []         # (what was shown, seconds)


def leaf_of(x):
    """the single float an integer term is computed from, or None"""
    found = set()
    seen = set()
    stack = [x]
    n = 0
    while stack:
        y = stack.pop()
        if y.__class__ in (int, float, str, Fraction) or y is None or id(y) in seen:
            continue
        seen.add(id(y))
        n += 1
        if n > 3000:
            return None
        if y.__class__ is F and y.kind not in ('i2f', 'frombits', 'fite'):
            found.add(y)
            if len(found) > 1:
                return None
            continue
        if y.__class__ is Atom and y.kind not in ('div', 'mod', 'ite', 'min', 'max', 'mul', 'bit', 'fbits'):
            return None
        stack.extend(T.children(y))
    return found.pop() if found else None


def cut_key(x, leaf):
    """structure of the term with its leaf left out"""
    ids, out = {}, []

    def visit(x):
        c = x.__class__
        if c in (int, str, Fraction) or x is None:
            return x
        if c is float:
            return ('f', x.hex())
        if c is tuple:
            return tuple([visit(e) for e in x])
        i = ids.get(x.id)
        if i is not None:
            return ('#', i)
        if x is leaf:
            k = ('leaf', x.fmt)
        elif c is Lin:
            # the order of the atoms is that of their creation: the same for the same code
            k = ('L', x.c) + tuple([(visit(a), q) for a, q in x.t])
        else:
            k = (x.kind, getattr(x, 'fmt', 0)) + tuple([visit(e) for e in x.args])
        ids[x.id] = len(ids)
        out.append(k)
        return ('#', len(ids) - 1)
    visit(x)
    return tuple(out)


class ConvEnc(BVEnc):
    def __init__(self, x, leaf):
        self.leaf = leaf
        BVEnc.__init__(self, [x])
        self.w = max(self.w, 34)
        self.v = z3.BitVec('leaf', leaf.fmt)

    def _atom(self, a):
        if a.kind == 'fbits':
            return z3.ZeroExt(self.w - a.args[0].fmt, self.fb(a.args[0]))
        return BVEnc._atom(self, a)

    def fb(self, x):
        """bits of a float"""
        if x is self.leaf:
            return self.v
        if x.__class__ is float:
            return z3.BitVecVal(T.fbits(x, 32), 32)
        if x.kind == 'frombits':
            return z3.Extract(x.fmt - 1, 0, self.lin(x.args[0]))
        if x.kind == 'fite':
            return z3.If(self.b(x.args[0]), self.fb(x.args[1]), self.fb(x.args[2]))
        if x.kind == 'i2f' and x.fmt == 32 and -(1 << 24) < T.lo(x.args[0]) and T.hi(x.args[0]) < 1 << 24:
            e = z3.Extract(31, 0, self.lin(x.args[0]))
            return z3.fpToIEEEBV(z3.fpSignedToFP(z3.RNE(), e, z3.Float32()))
        raise Unsupported('encode float ' + x.kind)

    def f(self, x, fmt=32):
        if x.__class__ is float:
            return z3.FPVal(x, z3.Float16() if fmt == 16 else z3.Float32())
        return z3.fpBVToFP(self.fb(x), z3.Float16() if x.fmt == 16 else z3.Float32())


def scaled50(bits, fmt, w=72):
    """|value| of a float in units of 2^-50 (floats of 32 bits below 2^-26: zero) and its exponent field"""
    if fmt == 16:
        e = z3.ZeroExt(w - 5, z3.Extract(14, 10, bits))
        m = z3.ZeroExt(w - 10, z3.Extract(9, 0, bits))
        # subnormal: m * 2^-24; normal: (m + 1024) * 2^(e - 25)
        return z3.If(e == 0, m << 26, (m + 1024) << (e + 25)), e
    e = z3.ZeroExt(w - 8, z3.Extract(30, 23, bits))
    m = z3.ZeroExt(w - 23, z3.Extract(22, 0, bits)) + (1 << 23)
    # m * 2^(e - 150)
    return z3.If(e < 101, z3.BitVecVal(0, w), m << (e - 100)), e


def conversion(x, r, fmt):
    """is the float whose bits are this integer term a conversion of another float? Decided by z3 over all its values"""
    if fmt == 64:
        return None
    leaf = leaf_of(x)
    if leaf is None or leaf.fmt == 64 or (leaf.fmt, fmt) == (16, 16) and leaf.kind != 'fvar':
        return None
    if leaf.fmt == 32:
        try:
            fi = finfo(leaf)
        except Unsupported:
            return None
        if max(abs(fi.lo), abs(fi.hi)) > HALF_LIMIT:
            return None
    key = (fmt, cut_key(x, leaf))
    ok = _conv.get(key)
    if ok is None:
        ok = _conv[key] = decide_conversion(x, leaf, fmt)
    if not ok:
        return None
    if leaf.fmt == 16:
        return T.f2f(leaf, 16, 32) if fmt == 32 else leaf
    T.ORIG[r.id] = r
    return T.mkf('cvtx', (leaf, r.id), fmt)


def decide_conversion(x, leaf, fmt):
    t = time.time()
    try:
        enc = ConvEnc(x, leaf)
        bits = z3.Extract(fmt - 1, 0, enc.lin(x))
    except Unsupported:
        return False
    s = z3.Solver()
    s.set('timeout', 20000)
    v = enc.v
    for c in enc.cons:
        s.add(c)
    if leaf.fmt == 16:
        s.add(z3.Extract(14, 10, v) != 31)
        if fmt == 16:
            s.add(z3.And(bits != v, z3.Extract(14, 0, v) != 0))
        else:
            s.add(z3.Not(z3.fpEQ(z3.fpFPToFP(z3.RNE(), z3.fpBVToFP(v, z3.Float16()), z3.Float32()), z3.fpBVToFP(bits, z3.Float32()))))
        what = 'exact conversion from 16 to %d bits' % fmt
    else:
        a, e = scaled50(v, 32)
        b, eb = scaled50(bits, fmt)
        lim = T.fbits(float(HALF_LIMIT), 32)
        s.add(z3.ULE(z3.Extract(30, 0, v), z3.BitVecVal(lim, 31)))
        sh = e - 88
        tol = z3.BitVecVal(1, 72) << z3.If(sh < 25, z3.BitVecVal(25, 72), sh)
        # an integer number of units: compare magnitudes, the signs must agree unless the result is zero
        d = a - b
        n = fmt - 1
        good = z3.And(d <= tol, -d <= tol, z3.Or(b == 0, z3.Extract(31, 31, v) == z3.Extract(n, n, bits)))
        if fmt == 16:
            good = z3.And(good, eb != 31)
        else:
            good = z3.And(good, eb < 143 + 1)
        s.add(z3.Not(good))
        what = 'rounding of 32 bits to half precision'
    c = s.check()
    LEMMAS.append((what, str(c), time.time() - t))
    if c == z3.unsat:
        return True
    if c == z3.sat:
        bv = s.model().eval(v, model_completion=True).as_long()
        HINTS.append((leaf.fmt, T.frombits(bv, leaf.fmt)))
    return False


T.CONVERSION.append(conversion)
