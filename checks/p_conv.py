"""Accuracy of the filter passes against the exact convolution."""
from .base import *
from .conv import *

SAT = 'i16-weight-saturation'


def tolerance(spec, taps):
    """how far a result of one pass may be from the exact convolution (in levels; float: absolute)"""
    n = len(taps)
    aw = sum(abs(k) for p, k in taps)
    if spec.flt:
        amp = Fraction(max(abs(spec.frange[0]), abs(spec.frange[1])))
        t = amp * (aw * Fraction(n + 4, 1 << 23) + Fraction(n, 100000))
        if spec.bits == 16:
            t += amp * aw / (1 << 11) + Fraction(1, 1 << 25)
        return t
    vm = spec.vmax
    if 4 <= spec.fmt < 8 and spec.depth > 12:
        # floating point code: f32 weights, f32 sums, one rounding at the end
        return Fraction(1, 2) + vm * (aw * Fraction(3 * n + 4, 1 << 24) + Fraction(n, 1000000))
    t = Fraction(1, 2) + slack(taps, vm) + Fraction(n * vm, 200000)
    if spec.workload == 2 and spec.fmt < 4:
        t += aw * (Fraction(255, 256) + Fraction(1, 64)) + Fraction(n, 128)
    return t


def taps_of(spec, ax, W, x, y):
    """[(weight, index into the source list's pixel (x, y))]"""
    if ax == 'h':
        return [(k, p, y) for p, k in W[x]]
    return [(k, x, p) for p, k in W[y]]


def lims(spec):
    return (None, None) if spec.flt else (0, spec.vmax)


def axis_job(ctx, rep, spec, ax, tol=None, weights=None, cells=None):
    """every output of a one-axis resize is the exact convolution up to the tolerance, for all pixel values"""
    rng = random.Random(spec.get('seed', 1))
    W = weights or (axis(spec.filter, spec.sw, spec.dw) if ax == 'h' else axis(spec.filter, spec.sh, spec.dh))
    N, ss = spec.N, spec.sstride
    lo, hi = lims(spec)
    first = True
    mode = [True]
    for r in sym(ctx, rep, spec):
        if r.rc != 0:
            env = prove(ctx, rep, 0, r.pc)
            if env is not None:
                confirm(ctx, rep, r, env, lambda s, o, d, rc: 'returns error %d for a valid request' % rc if rc else None, 'rc')
            continue
        validate(ctx, rep, r, rng)
        for y in range(spec.dh):
            for x in range(spec.dw):
                tp = taps_of(spec, ax, W, x, y)
                pure = [(k, None) for k, a, b in tp]
                t = tol(spec, pure) if tol else tolerance(spec, [(None, k) for k, n in pure])
                over = not spec.flt and any(clip(k) != k for k, a, b in tp)
                for c in range(N):
                    if cells and not cells(x, y, c):
                        continue
                    ix = [b * ss + a * N + c for k, a, b in tp]
                    out = r.px(x, y, c)

                    def cond(cl):
                        return near(out, [(clip(k) if cl else k, r.src[i]) for (k, a, b), i in zip(tp, ix)], t, lo, hi)

                    def judge(s, o, d, rc, cl=None):
                        got = d[y * spec.dstride + x * N + c]
                        if rc:
                            return 'returns error %d' % rc
                        if got != got:
                            return 'pixel %d,%d channel %d is NaN' % (x, y, c)
                        msg = None
                        for q in ((False, True) if over and cl is None else (bool(cl),)):
                            want = clampq(sum((clip(k) if q else k) * Fraction(s[i]) for (k, a, b), i in zip(tp, ix)), lo, hi)
                            if abs(Fraction(got) - want) <= t:
                                return None
                            msg = msg or 'pixel %d,%d channel %d is %s, the exact convolution is %.4f (tolerance %.4f)' % (
                                x, y, c, got, float(want), float(t))
                        return msg
                    if first:
                        first = False
                        # the assertion is not vacuous: its twin with the wrong sign can be broken
                        mid = Fraction(spec.frange[0] + spec.frange[1]) / 2 if spec.flt else Fraction(spec.vmax, 2)
                        try:
                            if T.support(out) and ctx.solver_model([T.bnot(rle(-mid * Fraction(9, 8) - Fraction(1, 16), [(1, out)]))] + r.pc) is not None:
                                rep.witness += 1
                        except Undecided:
                            first = True
                    # weights above one: the fixed point code saturates them (a known finding), the float code does not
                    modes = [False]
                    if over:
                        modes = [True, False] if mode[0] else [False, True]
                    und = len(rep.undecided)
                    env = prove(ctx, rep, cond(modes[0]), r.pc)
                    if len(rep.undecided) > und and smt.HINTS and replay_hints(ctx, rep, r, [(k, i) for (k, a, b), i in zip(tp, ix)], judge_at=lambda amp: (
                            lambda s, o, d, rc: off_by(d[y * spec.dstride + x * N + c], [(k, s[i]) for (k, a, b), i in zip(tp, ix)],
                                                       tolerance(spec.but(frange=(-amp, amp)), [(None, k) for k, a, b in tp]), 'pixel %d,%d channel %d' % (x, y, c)))):
                        return
                    if env is not None and over:
                        if modes[0] and SAT not in rep.known:
                            note_saturation(ctx, rep, r, env, judge)
                        env2 = prove(ctx, rep, cond(modes[1]), r.pc)
                        if env2 is None:
                            mode[0] = modes[1]
                            env = None
                        else:
                            rep.oblig -= 1
                    if env is None:
                        if over and mode[0] and SAT not in rep.known:
                            note_saturation(ctx, rep, r, prove(ctx, rep, cond(False), r.pc), judge)
                        continue
                    if confirm(ctx, rep, r, env, judge, 'pixel %d,%d,%d' % (x, y, c)):
                        return


def off_by(got, taps, t, where):
    if got != got:
        return where + ' is NaN'
    want = sum((k * Fraction(s) for k, s in taps), Fraction(0))
    if abs(got) == math.inf or abs(Fraction(got) - want) > t:
        return '%s is %s, the exact convolution is %.6g (tolerance %.3g)' % (where, got, float(want), float(t))


def replay_hints(ctx, rep, r, taps, judge_at):
    """the solver found a value that a conversion written out in the code gets wrong: bring it to this output natively"""
    rng = random.Random(7)
    total = sum(k for k, i in taps)
    for fmt, v in list(dict.fromkeys(reversed(smt.HINTS)))[:16]:
        if not math.isfinite(v) or abs(v) > 30000:
            continue
        judge = judge_at(max(abs(v) * 1.25, 1e-7))
        for n in range(1 if fmt == 16 else 16):
            spread = 0 if n == 0 or fmt == 16 else rng.choice((2e-4, 1e-3, 1e-2, 0.2))
            env = {}
            complete(env, list(r.src) + list(r.old))
            for i, s in enumerate(r.src):
                if s.__class__ is T.F and s.kind == 'fvar':
                    env[s.args[0]] = T.rnd(v * (1 + rng.uniform(-spread, spread)), r.spec.bits)
            env, cs, co = concretise(r, env)
            g = native(ctx, r.spec, cs, co)
            if 'crash' in g or g['rc'] != 0:
                continue
            msg = judge(cs, co, g['dst'], g['rc'])
            if msg:
                rep.violation(r.spec, '%s: %s' % (r.spec.text(), msg), cs, co, out=g['dst'])
                return True
    return False


def note_saturation(ctx, rep, r, env, judge):
    """a result that matches the saturated weights and not the kernel's"""
    if env is None:
        return
    env, cs, co = concretise(r, env)
    n = native(ctx, r.spec, cs, co)
    m = judge(cs, co, n['dst'], n['rc'], False)
    if m and not judge(cs, co, n['dst'], n['rc'], True):
        rep.known[SAT] = '%s: %s' % (r.spec.text(), m)


# ---- P04 / P05 / P06 --------------------------------------------------------------------------

UP, DOWN, BIG = (9, 14), (23, 8), (23, 4)


def geometries(spec, tier):
    """(axis, spec) pairs for one format / CPU / strategy"""
    N = spec.N
    q = tier == 'quick'
    for f, n, m in ((27, 9, 14), (2, 13, 5), (27, 23, 4)) if q else ((27, 9, 14), (2, 13, 5), (27, 23, 4), (0, 23, 8), (6, 31, 3), (1 + 25, 5, 16), (46, 21, 11)):
        yield 'h', spec.but(filter=f, sw=n, dw=m, sh=5, dh=5)
    # vertical: rows long enough for each block length of the vector code and an odd rest
    blk = {1: 64, 2: 32, 4: 32}[spec.esz]
    row = {1: 64 + 32 + 16 + 8 + 4 + 3, 2: 32 + 16 + 8 + 4 + 3, 4: 32 + 16 + 8 + 4 + 3}[spec.esz]
    w = -(-row // N)
    for f, n, m in ((27, 7, 9), (0, 23, 8)) if q else ((27, 7, 9), (0, 23, 8), (2, 17, 5), (6, 31, 3), (46, 21, 11)):
        yield 'v', spec.but(filter=f, sw=w, dw=w, sh=n, dh=m)


# few and many taps, every count of rows modulo four, rows and columns longer than a byte counts, narrow and single ones
# (axis, kernel, length, result, lines; 0 lines: the long rows of geometries)
MORE = [('h', 48, 300, 151, 1), ('h', 27, 3, 280, 2), ('h', 0, 5, 7, 3), ('h', 6, 31, 3, 4), ('h', 0, 23, 8, 6), ('h', 46, 17, 29, 7), ('h', 2, 2, 9, 1), ('h', 27, 41, 40, 2),
        ('v', 0, 5, 8, 0), ('v', 2, 6, 9, 0), ('v', 48, 270, 136, 2), ('v', 27, 2, 270, 1), ('v', 46, 9, 4, 7), ('v', 6, 1, 3, 17), ('v', 0, 40, 3, 13)]


def more_geometries(spec, tier):
    w = None
    for ax, f, n, m, k in MORE:
        if ax == 'h':
            yield ax, spec.but(filter=f, sw=n, dw=m, sh=k, dh=k)
        else:
            k = k or -(-{1: 123, 2: 59, 4: 59}[spec.esz] // spec.N)
            yield ax, spec.but(filter=f, sw=k, dw=k, sh=n, dh=m)


def accuracy_jobs(ctx, tier, fmts, workloads, depths=(None,), more=((None,),)):
    js = []
    n = 0
    for t in ALL_TIERS:
        for f in fmts:
            for wl in workloads:
                for ds in more:
                    for ax, sp in more_geometries(Spec(fmt=f, workload=wl, tier=t, depth=ds[0]), tier):
                        n += 1
                        sp = sp.but(depth=ds[n % len(ds)])
                        js.append(Job(axis_job, sp, ax, name=sp.text()))
    for t in ALL_TIERS:
        for f in fmts:
            for wl in workloads:
                for d in depths:
                    base = Spec(fmt=f, workload=wl, tier=t, depth=d)
                    for ax, sp in geometries(base, tier):
                        js.append(Job(axis_job, sp, ax, name=sp.text()))
    return js


def p04(ctx, tier):
    return accuracy_jobs(ctx, tier, (0, 1, 2, 3), (1, 2))


def p05(ctx, tier):
    return accuracy_jobs(ctx, tier, (4, 5, 6, 7), (1, 2) if tier != 'quick' else (2,), (8, 10, 12, 16) if tier == 'quick' else (1, 4, 8, 9, 10, 11, 12, 13, 14, 15, 16), more=((1, 9, 12, 4, 11, 10, 8, 5), (13, 16, 15, 14)))


def p06(ctx, tier):
    return accuracy_jobs(ctx, tier, (8, 9, 10, 11), (1, 2) if tier != 'quick' else (2,))
