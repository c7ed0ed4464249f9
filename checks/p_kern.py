"""The kernels themselves: their weights, constant images, overshoot, and the agreement of CPU tiers and strategies."""
from .base import *
from .conv import *
from .p_conv import axis_job, tolerance, lims, taps_of, SAT
from .p_struct import all_cells, compare, feasible, witness, prove_equal, report_pair, settled, run_pair

# Bartlett as coded is negative and cancels: its normalised weights are ill-conditioned
KERNELS = [i for i in range(len(ref.NAMES)) if i not in (1, 16)]


def steady(f, n, m):
    """no tap of the kernel sits so close to a jump (of the kernel or of the window) that rounding decides which side it is on"""
    a = ref.weights(f, n, m)
    for e in (3e-6, -3e-6):
        b = ref.weights(f, n, m, e)
        for (s, u), (t, v) in zip(a, b):
            x, y = dict(enumerate(u, s)), dict(enumerate(v, t))
            if any(abs(x.get(k, 0) - y.get(k, 0)) > 1e-3 for k in set(x) | set(y)):
                return False
    return True


PAIRS = [(9, 14), (13, 5), (23, 4), (1, 5), (5, 1), (2, 3), (8, 7), (40, 3), (3, 31), (61, 60), (17, 2), (4, 9), (10, 29), (31, 12), (6, 5), (50, 7), (7, 50), (2, 1), (1, 2), (3, 2), (100, 9), (12, 64)]


def kernel_tol(spec, taps):
    taps = [(None, k) for k, p in taps]
    t = tolerance(spec, taps)
    if ref.NAMES[spec.filter] == 'Sphinx':
        # sin x - x cos x cancels close to zero in single precision
        t += Fraction(1, 1000) * sum(abs(k) for p, k in taps) * (1 if spec.flt else spec.vmax)
    return t


def p07(ctx, tier):
    js = []
    q = tier == 'quick'
    for f in KERNELS:
        n = 0
        for a, b in PAIRS:
            if not steady(f, a, b):
                continue
            n += 1
            for t in ('scalar', 'avx2fma') if q else ALL_TIERS:
                for ax in 'hv':
                    if q and (n + len(t)) % 2 == (ax == 'h') and n > 4:
                        continue
                    d = dict(sw=a, dw=b, sh=2, dh=2) if ax == 'h' else dict(sw=2, dw=2, sh=a, dh=b)
                    s = Spec(fmt=8, filter=f, workload=2, tier=t, **d)
                    js.append(Job(axis_job, s, ax, kernel_tol, name=s.text()))
                    if not q or n == 2:
                        for fmt, dep in ((0, None), (5, 16), (6, 10)):
                            s2 = Spec(fmt=fmt, filter=f, workload=1, tier=t, depth=dep, **d)
                            js.append(Job(axis_job, s2, ax, kernel_tol, name=s2.text()))
    return js


# ---- P08: constant images ----------------------------------------------------------------------

def overweight(spec):
    """some weight exceeds one: the fixed-point code saturates it (known finding)"""
    for n, m in ((spec.sw, spec.dw), (spec.sh, spec.dh)):
        for tp in axis(spec.filter, n, m) or []:
            if any(clip(k) != k and k != 1 for p, k in tp):
                return True
    return False


def fixed_point(spec):
    return not spec.flt and spec.vmax <= 4095


def const_job(ctx, rep, spec):
    """one symbolic value per channel, the same in every pixel"""
    N = spec.N
    v = [T.fvar('v%d' % c, spec.frange[0], spec.frange[1], spec.bits) if spec.flt else T.ivar('v%d' % c, 0, spec.vmax) for c in range(N)]
    mk = source(spec, lambda x, y, c: v[c])
    amp = max(abs(x) for x in spec.frange)
    t = Fraction(amp) * Fraction(1, 100000 if spec.bits == 32 else 200) if spec.flt else 1
    if spec.workload == 2 and not spec.flt and spec.fmt < 4:
        t = max(1, (spec.sw != spec.dw) + (spec.sh != spec.dh))     # the low-precision strategy: one level per pass
    sat = fixed_point(spec) and overweight(spec)
    for r in sym(ctx, rep, spec, mk):
        if r.rc:
            env = prove(ctx, rep, 0, r.pc)
            if env is not None:
                confirm(ctx, rep, r, env, lambda s, o, d, rc: 'returns error %d' % rc if rc else None, 'rc')
            continue
        validate(ctx, rep, r, random.Random(1))
        witness(ctx, rep, r)
        for i, j, lab in all_cells(spec, spec):
            out, c = r.out[i], i % spec.dstride % N
            cond = T.band(rle(-t, [(1, out), (-1, v[c])]), rle(-t, [(-1, out), (1, v[c])]))
            env = prove(ctx, rep, cond, r.pc)
            if env is None:
                continue

            def judge(s, o, d, rc):
                if rc:
                    return 'returns error %d' % rc
                if d[i] != d[i] or abs(Fraction(d[i]) - Fraction(s[c])) > t:
                    return '%s of a constant image of %s is %s' % (lab, s[c], d[i])
            if sat:
                env, cs, co = concretise(r, env)
                n = native(ctx, spec, cs, co)
                m = judge(cs, co, n['dst'], n['rc'])
                if m:
                    rep.known.setdefault(SAT, '%s: %s' % (spec.text(), m))
                    break
            if confirm(ctx, rep, r, env, judge, lab):
                return


def p08(ctx, tier):
    js = []
    q = tier == 'quick'
    n = 0
    for fmt in range(12):
        for t in ALL_TIERS:
            for f in KERNELS:
                for a, b, c, d in ((9, 5, 5, 13), (23, 4, 2, 9), (3, 31, 40, 3), (1, 5, 17, 2), (7, 7, 13, 6), (19, 12, 4, 4), (34, 9, 3, 3)):
                    n += 1
                    if q and n % 17:
                        continue
                    wl = 1 + (n // 17 if q else n) % 2
                    dep = (10, 16, 8, 12)[(n // 34 if q else n) % 4] if 4 <= fmt < 8 else None
                    s = Spec(fmt=fmt, filter=f, workload=wl, sw=a, dw=b, sh=c, dh=d, tier=t, depth=dep)
                    js.append(Job(const_job, s, name=s.text()))
    return js


# ---- P17: no overshoot -------------------------------------------------------------------------

def range_job(ctx, rep, spec):
    """lo <= every source sample of a channel <= hi for symbolic lo and hi: so are the results"""
    N = spec.N
    if spec.flt:
        lo = [T.fvar('lo%d' % c, spec.frange[0], spec.frange[1], spec.bits) for c in range(N)]
        hi = [T.fvar('hi%d' % c, spec.frange[0], spec.frange[1], spec.bits) for c in range(N)]
    else:
        lo = [T.ivar('lo%d' % c, 0, spec.vmax) for c in range(N)]
        hi = [T.ivar('hi%d' % c, 0, spec.vmax) for c in range(N)]
    wx, wy = axis(spec.filter, spec.sw, spec.dw), axis(spec.filter, spec.sh, spec.dh)
    assert all(k >= 0 for w in (wx or [], wy or []) for tp in w for p, k in tp), spec.text()
    for r in sym(ctx, rep, spec):
        if r.rc:
            env = prove(ctx, rep, 0, r.pc)
            if env is not None:
                confirm(ctx, rep, r, env, lambda s, o, d, rc: 'returns error %d' % rc if rc else None, 'rc')
            continue
        validate(ctx, rep, r, random.Random(1))
        witness(ctx, rep, r)
        for y in range(spec.dh):
            for x in range(spec.dw):
                t = Fraction(0)
                for w, k in ((wy, y), (wx, x)):
                    if w:
                        tt = tolerance(spec, [(None, kk) for p, kk in w[k]])
                        t += tt if spec.flt else math.ceil(tt)  - (tt == int(tt))
                for c in range(N):
                    i = y * spec.dstride + x * N + c
                    out = r.out[i]
                    names = sorted(T.support(out))
                    vs = [v for v in r.src if v.__class__ not in (int, float) and T.support(v) <= set(names)]
                    pre = []
                    for v in vs:
                        pre += [rle(0, [(-1, v), (1, lo[c])]), rle(0, [(1, v), (-1, hi[c])])]
                    for cond in (rle(-t, [(1, out), (-1, hi[c])]), rle(-t, [(-1, out), (1, lo[c])])):
                        env = prove(ctx, rep, cond, list(r.pc) + pre)
                        if env is None:
                            continue
                        env = dict(env)

                        def judge(s, o, d, rc):
                            if rc:
                                return 'returns error %d' % rc
                            vals = [s[q * spec.sstride + p * N + c] for q in range(spec.sh) for p in range(spec.sw)]
                            if d[i] != d[i] or d[i] < min(vals) - t or d[i] > max(vals) + t:
                                return 'pixel %d,%d channel %d is %s, the source lies between %s and %s' % (x, y, c, d[i], min(vals), max(vals))
                        # pixels the result does not depend on: anything inside the range
                        for q in range(spec.sh):
                            for p in range(spec.sw):
                                env.setdefault(sname(p, q, c), env.get('lo%d' % c, env.get('hi%d' % c, 0)))
                        if confirm(ctx, rep, r, env, judge, 'range'):
                            return


def p17(ctx, tier):
    js = []
    q = tier == 'quick'
    n = 0
    for fmt in range(12):
        for t in ALL_TIERS:
            for f in [ref.ID[k] for k in ref.NONNEG]:
                for a, b, c, d in ((9, 5, 3, 3), (23, 4, 2, 2), (4, 9, 3, 3), (11, 11, 13, 5), (35, 35, 4, 9), (5, 5, 17, 2), (5, 3, 4, 6)):
                    n += 1
                    if not steady(f, a, b) or not steady(f, c, d):
                        continue
                    if q and n % 3:
                        continue
                    wl = 1 + (n // 3 if q else n) % 2
                    dep = (10, 16, 8, 12)[(n // 6 if q else n) % 4] if 4 <= fmt < 8 else None
                    s = Spec(fmt=fmt, filter=f, workload=wl, sw=a, dw=b, sh=c, dh=d, tier=t, depth=dep)
                    if any(k < 0 for u, v in ((a, b), (c, d)) for tp in axis(f, u, v) or [] for p, k in tp):
                        continue
                    js.append(Job(range_job, s, name=s.text()))
    return js


# ---- P15: tiers and strategies -----------------------------------------------------------------

def budget(spec, wx, wy):
    """how far the result may be from the exact separable convolution"""
    t = Fraction(0)
    if wy:
        t += tolerance(spec, [(None, k) for p, k in wy]) * (sum(abs(k) for p, k in wx) if wx else 1)
    if wx:
        t += tolerance(spec, [(None, k) for p, k in wx])
    return t


def agree_job(ctx, rep, sa, sb, pix=None, place=None, chan=None):
    """two calls give the same result within rounding; pix maps the pixels of the second source to those of the first,
    place and chan those of the first result to the second's"""
    A = sym(ctx, rep, sa)
    B = sym(ctx, rep, sb, source(sb, lambda x, y, c: src_term(sa, *pix(x, y), chan[c] if chan else c)) if pix else None)
    wx, wy = axis(sa.filter, sa.sw, sa.dw), axis(sa.filter, sa.sh, sa.dh)
    cells = all_cells(sa, sb)
    if place:
        N = sa.N
        back = [chan.index(c) for c in range(N)] if chan else list(range(N))
        cells = [(y * sa.dstride + x * N + c, place(x, y)[1] * sb.dstride + place(x, y)[0] * N + back[c],
                  'pixel %d,%d channel %d' % (x, y, c)) for y in range(sa.dh) for x in range(sa.dw) for c in range(N)]
    for a, b in ((a, b) for a in A for b in B):
        if (a.pc or b.pc) and not feasible(ctx, a, b):
            continue
        pc = a.pc + b.pc
        if a.rc or b.rc:
            compare(ctx, rep, a, b, cells, 'one is rejected')
            continue
        for i, j, lab in cells:
            x, y = i % sa.dstride // sa.N, i // sa.dstride
            u, v = (wx[x] if wx else None), (wy[y] if wy else None)
            t = budget(sa, u, v) + budget(sb, u, v)
            p, q = a.out[i], b.out[j]
            if p is q:
                rep.oblig += 1
                rep.trivial += 1
                settled(rep, p, q)
                continue
            cond = T.band(rle(-t, [(1, p), (-1, q)]), rle(-t, [(-1, p), (1, q)]))
            env = prove(ctx, rep, cond, pc)
            if env is None:
                continue
            (s1, o1, n1), (s2, o2, n2) = run_pair(ctx, a, b, env)
            if 'crash' in n1 or 'crash' in n2 or n1['rc'] or n2['rc']:
                rep.violation(sa, '%s or %s fails' % (sa.text(), sb.text()), s1, o1)
                return
            g, h = n1['dst'][i], n2['dst'][j]
            if g != g or h != h or abs(Fraction(g) - Fraction(h)) > t:
                rep.violation(sa, '%s gives %s at %s, %s gives %s%s (tolerance %.4f)' % (
                    sa.text(), g, lab, sb.text(), h, ' at its image' if place else '', float(t)), s1, o1, other=dict(spec=dict(sb), src=s2, old=o2))
                return
            rep.errors.append('counterexample does not reproduce: %s / %s %s' % (sa.text(), sb.text(), lab))
            return
    for r in A[:1] + B[:1]:
        validate(ctx, rep, r, random.Random(1))
        witness(ctx, rep, r)


def p15(ctx, tier):
    js = []
    q = tier == 'quick'
    for fmt in range(12):
        for dep in (10, 16) if 4 <= fmt < 8 else (None,):
            for f, a, b, c, d in ((27, 9, 5, 3, 3), (0, 5, 5, 9, 4), (2, 4, 9, 3, 3), (27, 5, 4, 4, 5)) if q else ((27, 9, 5, 3, 3), (0, 5, 5, 9, 4), (2, 4, 9, 3, 3), (27, 5, 4, 4, 5), (48, 33, 4, 5, 5), (27, 39, 39, 5, 8), (0, 7, 4, 9, 3), (8, 3, 7, 2, 5)):
                s = Spec(fmt=fmt, filter=f, workload=2, sw=a, dw=b, sh=c, dh=d, tier='scalar', depth=dep)
                others = [s.but(tier=t) for t in ALL_TIERS[1:]] + [s.but(workload=1), s.but(workload=1, tier='avx2fma')] + ([] if q else [s.but(workload=1, tier=t) for t in ('sse', 'avx2')])
                for o in others:
                    js.append(Job(agree_job, s, o, name=s.text() + ' / ' + o.text()))
    return js


# ---- P27: symmetry -----------------------------------------------------------------------------

# the smoothing of these kernels leans to one side by construction; Nearest and Bartlett: see KERNELS
LEVEL = [f for f in KERNELS if not ref.NAMES[f].startswith('Ewa')]


def level(f, n, m):
    """the mirror image of the weights is defined: steady, and no sample midway between two pixels sees nothing but zeros"""
    return steady(f, n, m) and all(sum(w) or (2 * i + 1) * n % (2 * m) for i, (s, w) in enumerate(ref.raw(f, n, m)))


def mirror_job(ctx, rep, s, fx, fy):
    agree_job(ctx, rep, s, s, lambda x, y: (s.sw - 1 - x if fx else x, s.sh - 1 - y if fy else y),
              lambda x, y: (s.dw - 1 - x if fx else x, s.dh - 1 - y if fy else y))


def transpose_job(ctx, rep, s):
    o = s.but(sw=s.sh, sh=s.sw, dw=s.dh, dh=s.dw)
    agree_job(ctx, rep, s, o, lambda x, y: (y, x), lambda x, y: (y, x))


def channel_job(ctx, rep, s, perm):
    agree_job(ctx, rep, s, s, lambda x, y: (x, y), lambda x, y: (x, y), perm)


def p27(ctx, tier):
    js = []
    q = tier == 'quick'
    pairs = [(4, 7), (9, 14), (7, 12), (13, 5), (23, 4), (5, 1), (2, 3), (8, 7), (17, 2), (6, 5), (2, 1), (3, 2), (31, 12), (3, 31), (40, 3)]
    for f in LEVEL:
        ok = [p for p in pairs if level(f, *p)]
        for n, (a, b) in enumerate(ok[:6] if q else ok):
            for t in (ALL_TIERS[(n + f) % 4],) if q else ALL_TIERS:
                for ax in ('hv'[(n + f // 4) % 2],) if q else 'hv':
                    d = dict(sw=a, dw=b, sh=2, dh=2) if ax == 'h' else dict(sw=2, dw=2, sh=a, dh=b)
                    s = Spec(fmt=8, filter=f, workload=2, tier=t, **d)
                    js.append(Job(mirror_job, s, ax == 'h', ax == 'v', name='mirrored ' + s.text()))
                    if ax == 'h' or q:
                        js.append(Job(transpose_job, s, name='transposed ' + s.text()))
    for fmt in range(12):
        n = 0
        for dep in (8, 10, 12, 16) if 4 <= fmt < 8 else (None,):
            for f, a, b, c, d in ((0, 4, 7, 5, 8), (27, 9, 14, 3, 3), (27, 2, 2, 7, 12), (2, 17, 6, 7, 9), (4, 7, 12, 3, 3), (0, 21, 34, 1, 1), (0, 9, 9, 3, 8)):
                if not level(f, a, b) or not level(f, c, d):
                    continue
                for t in ALL_TIERS:
                    n += 1
                    if q and n % 4:
                        continue
                    wl = 1 + n // 4 % 2
                    s = Spec(fmt=fmt, filter=f, workload=wl, sw=a, dw=b, sh=c, dh=d, tier=t, depth=dep)
                    js.append(Job(mirror_job, s, n % 3 != 1, n % 3 != 0, name='mirrored ' + s.text()))
                    if s.flt or a == b or c == d:
                        js.append(Job(transpose_job, s, name='transposed ' + s.text()))
                    if s.N > 1:
                        perm = [[1, 0], [2, 0, 1], [1, 2, 3, 0]][s.N - 2]
                        js.append(Job(channel_job, s, perm, name='channels exchanged ' + s.text()))
    return js
