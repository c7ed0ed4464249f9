"""Exact convolution as the oracle of the filter passes."""
import math
from fractions import Fraction
from .base import *

Q = 1 << 30


def q(w):
    return Fraction(round(w * Q), Q)


LIM = Fraction(32767, 32768)


def clip(w):
    return min(LIM, max(Fraction(-1), w))


def axis(filt, n, m):
    """per destination position: [(source position, weight)]; None if the axis keeps its size"""
    if n == m:
        return None
    return [[(s + i, q(w)) for i, w in enumerate(ws)] for s, ws in ref.weights(filt, n, m)]


def near(out, terms, tol, lo, hi):
    """|out - clamp(sum, lo, hi)| <= tol as a condition; lo = None: no clamping"""
    tol = Fraction(tol)
    neg = [(-k, t) for k, t in terms]
    up = rle(-tol, [(1, out)] + neg)                    # out <= R + tol
    dn = rle(-tol, [(-1, out)] + terms)                 # out >= R - tol
    if lo is None:
        return T.band(up, dn)
    up = T.bor(up, rle(-tol - lo, [(1, out)]))          # ... or out <= lo + tol
    dn = T.bor(dn, rle(Fraction(hi) - tol, [(-1, out)]))  # ... or out >= hi - tol
    return T.band(up, dn, rle(-Fraction(hi), [(1, out)]), rle(Fraction(lo), [(-1, out)]))


def clampq(v, lo, hi):
    return v if lo is None else max(Fraction(lo), min(Fraction(hi), v))


def total(terms, vals):
    return sum((k * Fraction(v) for k, v in zip([k for k, t in terms], vals)), Fraction(0))


def slack(taps, vmax):
    """what quantising the weights of so many taps to 2^-15 can cost"""
    return Fraction(len(taps) * vmax, 1 << 16)
