"""Alpha handling: accuracy of the premultiplied resize, invisible colours, the flag on images without real alpha."""
from .base import *
from .conv import *
from .p_conv import tolerance
from .p_struct import (all_cells, compare, feasible, witness, prove_equal, independence, settled, report_pair)

PATTERNS = (
    (255, 0, 128, 77, 200, 3, 254, 100),
    (255, 255, 255, 254, 255, 255, 255, 255),
    (20, 240, 31, 222, 64, 190, 16, 255),
    (1, 2, 3, 5, 8, 250, 90, 140),
)


def alpha_at(spec, x, y, seed):
    """the concrete alpha of a source pixel"""
    if spec.get('alphas') is not None:
        a = spec['alphas'][(y * spec.sw + x) % len(spec['alphas'])]
    else:
        a = PATTERNS[seed % len(PATTERNS)][(x * 3 + y * 5 + seed // len(PATTERNS)) % 8]
        if not spec.flt:
            a = (a * spec.vmax + 127) // 255
    if spec.flt:
        return T.rnd(a / 255.0, spec.bits)
    return a


def alpha_source(spec, seed=0, invisible=None):
    return source(spec, lambda x, y, c: alpha_at(spec, x, y, seed) if c == 3 else None)


def two_axes(spec):
    wx = axis(spec.filter, spec.sw, spec.dw) or [[(x, Fraction(1))] for x in range(spec.dw)]
    wy = axis(spec.filter, spec.sh, spec.dh) or [[(y, Fraction(1))] for y in range(spec.dh)]
    return wx, wy


def passes_tol(spec, wx, wy):
    """tolerance of the filter passes on one plane, and the sum of the absolute weights"""
    ax, ay = sum(abs(k) for p, k in wx), sum(abs(k) for p, k in wy)
    t = Fraction(0)
    # the premultiplied resize always runs both passes
    t += tolerance(spec, [(None, k) for p, k in wy]) * ax
    t += tolerance(spec, [(None, k) for p, k in wx])
    return t, ax * ay


def premul_job(ctx, rep, spec, seed):
    """out = sum(w a c) / sum(w a) for all colours under a concrete alpha plane"""
    ss, N = spec.sstride, 4
    vm = 1 if spec.flt else spec.vmax
    wx, wy = two_axes(spec)
    src = alpha_source(spec, seed)
    for r in sym(ctx, rep, spec, src):
        if r.rc:
            env = prove(ctx, rep, 0, r.pc)
            if env is not None:
                confirm(ctx, rep, r, env, lambda s, o, d, rc: 'returns error %d for a valid request' % rc if rc else None, 'rc')
            continue
        validate(ctx, rep, r, random.Random(seed))
        witness(ctx, rep, r)
        for y in range(spec.dh):
            for x in range(spec.dw):
                tp = [(k * l, q * ss + p * N) for p, k in wx[x] for q, l in wy[y]]
                tol, aw = passes_tol(spec, wx[x], wy[y])
                if not spec.flt and max(k for w in (wx[x], wy[y]) for p, k in w) > Fraction(32769, 32768):
                    rep.skipped += 1        # saturated weights: the known finding of P04 and P05
                    continue
                A = r.px(x, y, 3)
                if A.__class__ not in (int, float):
                    raise Unsupported('alpha of the result is not concrete')
                Ae = sum((k * Fraction(src[i + 3]) for k, i in tp), Fraction(0))
                rep.oblig += 1
                rep.trivial += 1
                At = clampq(Ae, *((None, None) if spec.flt else (0, vm)))

                def judge_a(s, o, d, rc):
                    g = d[y * spec.dstride + 4 * x + 3]
                    if g != g or abs(Fraction(g) - At) > tol:
                        return 'alpha of pixel %d,%d is %s, the exact value is %.4f (tolerance %.4f)' % (x, y, g, float(At), float(tol))
                if abs(Fraction(A) - At) > tol:
                    if confirm(ctx, rep, r, ctx.check(list(r.pc)) or {}, judge_a, 'alpha'):
                        return
                if At <= 0 or A <= 0 or Ae * 20 < vm * aw:
                    continue
                # colour: premultiplication rounds (half a level per tap), both passes round, division magnifies by vm / alpha
                if spec.flt:
                    ct = (tol + aw * Fraction(1, 1 << (20 if spec.bits == 32 else 11))) * 2 / Fraction(A) + Fraction(1, 1 << (12 if spec.bits == 32 else 9))
                    lim = (None, None)
                else:
                    prem = aw * (Fraction(1, 2) if spec.depth in (8, 10, 12, 16) else 1)
                    ct = vm * (2 * tol + prem + Fraction(1, 4)) / Fraction(A) + Fraction(3, 2)
                    lim = (0, vm)
                for c in range(3):
                    terms = [(k * Fraction(src[i + 3]) / At, src[i + c]) for k, i in tp if src[i + 3]]
                    out = r.px(x, y, c)
                    env = prove(ctx, rep, near(out, terms, ct, *lim), r.pc)
                    if env is None:
                        continue

                    def judge(s, o, d, rc):
                        g = d[y * spec.dstride + 4 * x + c]
                        if g != g:
                            return 'pixel %d,%d channel %d is NaN' % (x, y, c)
                        want = clampq(sum(k * Fraction(src[i + 3]) / At * Fraction(s[i + c]) for k, i in tp), *lim)
                        if abs(Fraction(g) - want) > ct:
                            return 'pixel %d,%d channel %d is %s, the exact value is %.4f (tolerance %.4f)' % (x, y, c, g, float(want), float(ct))
                    if confirm(ctx, rep, r, env, judge, 'pixel %d,%d,%d' % (x, y, c)):
                        return


def p11(ctx, tier):
    js = []
    q = tier == 'quick'
    for fmt in (3, 7, 11):
        for t in ALL_TIERS:
            for d in (((8, 10, 16) if q else (8, 9, 10, 12, 14, 16)) if fmt == 7 else (None,)):
                # the round trip of single pixels: every alpha, every colour
                vm = 255 if fmt != 7 else (1 << d) - 1
                # 23 pixels per row: a full block of each width and an odd rest
                al = list(range(256)) if vm == 255 else sorted(set(random.Random(5).sample(range(vm + 1), 200 if q else 250) + [0, 1, 2, vm - 1, vm, vm // 2]))
                al = [a for a in al if a * 20 > vm] if vm > 255 else al
                n = 39
                parts = [al[i:i + n] for i in range(0, len(al), n)]
                for part in (parts[::2] if q and vm > 255 else parts):
                    part = (part + al)[:n]
                    s = Spec(fmt=fmt, filter=48, sw=n, sh=1, dw=n, dh=2, tier=t, depth=d, premul=1, alphas=part, frange=(0.0, 1.0))
                    js.append(Job(premul_job, s, 0, name=s.text() + ' alphas %d..%d' % (min(part), max(part))))
                for k, (f, sw, sh, dw, dh) in enumerate([(0, 9, 4, 5, 4), (48, 5, 7, 5, 3), (27, 9, 3, 14, 3), (2, 3, 9, 3, 4)] if q else
                                                       [(0, 9, 4, 5, 4), (48, 5, 7, 5, 3), (27, 9, 3, 14, 3), (2, 3, 9, 3, 4), (0, 19, 7, 21, 5), (6, 21, 3, 8, 2), (27, 5, 13, 5, 4), (2, 20, 5, 9, 9)]):
                    for seed in ((k,) if q else range(6)):
                        for wl in (1,):
                            s = Spec(fmt=fmt, filter=f, workload=wl, sw=sw, sh=sh, dw=dw, dh=dh, tier=t, depth=d, premul=1, frange=(0.0, 1.0))
                            js.append(Job(premul_job, s, seed, name=s.text() + ' alpha pattern %d' % seed))
    return js


# ---- P12: colours of invisible pixels ----------------------------------------------------------

def invisible_job(ctx, rep, spec, seed):
    """the colour of a source pixel whose alpha is zero reaches no destination pixel"""
    src = alpha_source(spec, seed)
    hidden = {sname(x, y, c) for y in range(spec.sh) for x in range(spec.sw) for c in range(3)
              if alpha_at(spec, x, y, seed) == 0}
    for r in sym(ctx, rep, spec, src):
        validate(ctx, rep, r, random.Random(seed))
        witness(ctx, rep, r)
        if hidden:
            rep.witness += 1
        for i, j, lab in all_cells(spec, spec):
            rep.oblig += 1
            bad = sorted(T.support(r.out[i]) & hidden)
            if not bad:
                rep.trivial += 1
                settled(rep, r.out[i], r.out[i])
                continue
            if independence(ctx, rep, r, i, lab, bad):
                return


def decision_job(ctx, rep, spec, live):
    """some pixels are transparent, the alpha of every other pixel is symbolic: whatever those are, as long as one of them is
    visible, the colours of the transparent pixels reach no destination sample"""
    one = 1.0 if spec.flt else spec.vmax
    al = {}

    def hidden(k):
        return k not in live
    for y in range(spec.sh):
        for x in range(spec.sw):
            k = y * spec.sw + x
            al[k] = (0.0 if spec.flt else 0) if hidden(k) else \
                T.fvar('a%d' % k, 0.0, 1.0, spec.bits) if spec.flt else T.ivar('a%d' % k, 0, one)
    src = source(spec, lambda x, y, c: al[y * spec.sw + x] if c == 3 else None)
    names = {sname(k % spec.sw, k // spec.sw, c) for k in al if hidden(k) for c in range(3)}
    visible = T.bor(*[T.fcmp('ogt', a, 0.0) if spec.flt else T.bnot(T.eq0(a)) for k, a in al.items() if not hidden(k)])
    for r in sym(ctx, rep, spec, src, max_paths=64):
        validate(ctx, rep, r, random.Random(3))
        bad = [(i, lab, sorted(T.support(r.out[i]) & names)) for i, j, lab in all_cells(spec, spec)]
        bad = [b for b in bad if b[2]]
        rep.oblig += len(all_cells(spec, spec)) - len(bad)
        rep.trivial += len(all_cells(spec, spec)) - len(bad)
        if not bad:
            rep.witness += 1
            continue
        r.pc = r.pc + [visible]
        rep.oblig += 1
        if ctx.check(r.pc) is None:
            continue
        for i, lab, b in bad:
            if independence(ctx, rep, r, i, lab, b):
                return


# (width, height, pixels that may be visible): leftovers of the rows, single blocks, blocks and leftovers, several rows
DECIDE = [(3, 1, (0, 2)), (2, 3, (0, 5)), (23, 1, (0, 5, 21)), (39, 1, (1, 7, 20, 37)), (39, 1, (0, 30, 35, 38)), (5, 2, (4, 5))]
DECIDE_MORE = [(4, 1, (0, 1)), (6, 2, (1, 3, 8, 10)), (9, 1, (0, 8)), (17, 1, (3, 15, 16)), (33, 1, (0, 32)), (70, 1, (0, 33, 64, 69)), (9, 4, (8, 17, 26, 35)), (7, 1, (0, 1, 2, 4, 5)),
               (16, 3, (15, 16, 40)), (67, 2, (2, 66, 67, 131)), (8, 1, (0, 7)), (12, 1, (0, 9, 11)), (40, 1, (8, 24, 39))]


def p12(ctx, tier):
    js = []
    q = tier == 'quick'
    pats = [(0, 255), (0, 0, 0, 255, 128), (0, 255, 0, 254, 0, 0, 17), (0, 0, 0, 0, 0, 0, 0, 0, 9)]
    for fmt in (3, 7, 11):
        for t in ALL_TIERS:
            for d in ((8, 10, 12, 16) if fmt == 7 else (None,)):
                vm = 255 if fmt != 7 else (1 << d) - 1
                for k, (f, sw, sh, dw, dh) in enumerate([(27, 9, 5, 5, 4), (0, 23, 3, 11, 3), (8, 5, 4, 5, 7)] if q else
                                                       [(27, 9, 5, 5, 4), (0, 23, 3, 11, 3), (8, 5, 4, 5, 7), (27, 39, 2, 20, 2), (2, 7, 21, 9, 10), (37, 12, 5, 6, 9)]):
                    for j, p in enumerate(pats):
                        if q and (j + k) % 2:
                            continue
                        for wl in ((1, 2) if not q else (2,)):
                            al = [a * vm // 255 for a in p]
                            s = Spec(fmt=fmt, filter=f, workload=wl, sw=sw, sh=sh, dw=dw, dh=dh, tier=t, depth=d, premul=1, alphas=al, frange=(0.0, 1.0), spad=4 * (j % 2))
                            js.append(Job(invisible_job, s, 0, name=s.text() + ' alphas %s' % al))
            # is the premultiplication skipped only where it may be: symbolic alphas
            for sw, sh, live in DECIDE if q else DECIDE + DECIDE_MORE:
                d = 16 if (sw + sh) % 2 else 10
                s = Spec(fmt=fmt, filter=0, sw=sw, sh=sh, dw=sw - 1, dh=sh, tier=t, depth=d if fmt == 7 else None, premul=1, frange=(0.0, 1.0), spad=4 * (sh > 1))
                js.append(Job(decision_job, s, live, name=s.text() + ' visible %s' % (live,)))
    return js


# ---- P10: the flag on images without transparency ------------------------------------------------

def const_alpha_job(ctx, rep, spec, kind):
    """premultiplication changes nothing on an opaque image, nor when every pixel has the same alpha"""
    plain = spec.but(premul=0)
    if kind == 'opaque':
        a = 1.0 if spec.flt else spec.vmax
    elif spec.flt:
        a = T.fvar('alpha', 0.0, 1.0, spec.bits)
    else:
        a = T.ivar('alpha', 0, spec.vmax)

    def mk(s):
        return source(s, lambda x, y, c: a if c == 3 else None)
    A = sym(ctx, rep, spec, mk(spec))
    B = sym(ctx, rep, plain, mk(plain))
    for ra in A:
        for rb in B:
            if (ra.pc or rb.pc) and not feasible(ctx, ra, rb):
                continue
            compare(ctx, rep, ra, rb, all_cells(spec, plain), 'the premultiplication flag changes an image whose alpha is constant')
            if rep.violations:
                return
    for r in A[:2]:
        validate(ctx, rep, r, random.Random(1))
        witness(ctx, rep, r)


def p10(ctx, tier):
    js = []
    q = tier == 'quick'
    for fmt in (3, 7, 11):
        for t in ALL_TIERS:
            for d in ((8, 10, 16) if fmt == 7 else (None,)):
                for k, (f, sw, sh, dw, dh) in enumerate([(27, 9, 5, 5, 4), (0, 23, 3, 11, 3), (8, 5, 4, 5, 7), (2, 17, 2, 34, 5), (1, 7, 5, 3, 9)]):
                    for wl in ((1, 2) if not q else (2,)):
                        for kind in ('opaque', 'constant'):
                            for spad in (0, 7):
                                s = Spec(fmt=fmt, filter=f, workload=wl, sw=sw, sh=sh, dw=dw, dh=dh, tier=t, depth=d, premul=1, frange=(-1.0, 1.0), spad=spad)
                                js.append(Job(const_alpha_job, s, kind, name=s.text() + ' ' + kind))
    return js
