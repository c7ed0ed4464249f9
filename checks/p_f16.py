"""P23: half-float images (built with the nightly feature) under the guarantees of the other formats."""
from .p_struct import *
from .p_conv import axis_job, geometries
from .p_alpha import premul_job, invisible_job, decision_job, const_alpha_job, DECIDE, DECIDE_MORE
from .p_mem import safe_job, KERNELS
from .p_api import reject_job, scale_job

# the processors without F16C convert with integer instructions (proved equal to the conversion, see conversion lemmas in
# engine/smt.py); those runs are long, so fewer of them
SOFT = ('sse', 'avx2')
TIERS16 = ['scalar', 'sse', 'sse_f16c', 'sse_f16c_fma', 'avx2', 'avx2_f16c', 'avx2fma']
FMTS = (12, 13, 14, 15)


def p23(ctx, tier):
    q = tier == 'quick'
    js = []

    def add(fn, s, *a, label=''):
        js.append(Job(fn, s, *a, name='%s %s%s' % (fn.__name__, s.text(), label)))
    n = 0
    for fmt in FMTS:
        for t in TIERS16:
            base = Spec(fmt=fmt, tier=t)
            soft = t in SOFT
            for k, (ax, s) in enumerate(geometries(base, tier)):
                if q and soft and (k + fmt) % 4:
                    continue
                add(axis_job, s, ax)
                if not q:
                    add(axis_job, s.but(frange=(-9000.0, 9000.0)), ax)
            for k, (sw, sh, dw, dh) in enumerate([(9, 6, 5, 4), (4, 5, 9, 11)] if q else [(9, 6, 5, 4), (4, 5, 9, 11), (17, 3, 6, 5), (3, 17, 5, 6), (12, 12, 7, 7), (1, 4, 3, 3), (6, 6, 1, 1)]):
                if soft and q:
                    sw, sh, dw, dh = ((5, 5, 3, 4), (3, 5, 4, 6))[k]
                for f in ((27, 0)[k % 2],) if q else (27, 0, 2, 48):
                    s = Spec(fmt=fmt, filter=f, sw=sw, sh=sh, dw=dw, dh=dh, tier=t)
                    if not soft or not q or fmt == 15 - k:
                        add(separable_job, s)
                        add(isolation_job, s)
                    add(stride_job, s.but(spad=5, dpad=7))
                    add(stride_job, s.but(filter=1, spad=3, dpad=1))
                    add(scale_job, s)
            for w, h in ((1, 1), (5, 3), (17, 2)):
                add(copy_job, Spec(fmt=fmt, sw=w, sh=h, dw=w, dh=h, tier=t, filter=27, spad=3 * (h > 1), dpad=2 * (w > 1)))
            for a, b, c, d in ((1, 5, 3, 2), (9, 4, 4, 9), (7, 3, 2, 17)):
                add(nearest_job, Spec(fmt=fmt, filter=1, sw=a, sh=c, dw=b, dh=d, tier=t, spad=2, dpad=3))
            for s in [(5, 6, 3, 7), (20, 4, 9, 4), (9, 9, 9, 4)][:1 if soft and q else 3]:
                for pol, th in ((1, 3), (2, 0)):
                    add(thread_job, Spec(fmt=fmt, filter=27, sw=s[0], sh=s[1], dw=s[2], dh=s[3], tier=t, policy=pol, threads=th, spad=3, dpad=2))
            hs = [(1, 3, 2), (2, 1, 5), (3, 5, 4), (4, 9, 7), (5, 17, 3), (7, 33, 2)]
            vs = [(1, 5, 3), (3, 2, 7), (11, 9, 4), (17, 17, 2), (34, 3, 5), (67, 5, 3)]
            for sw, sh, dw, dh in [(a, h, b, h) for h, a, b in hs] + [(w, a, w, b) for w, a, b in vs] + [(5, 7, 3, 11)]:
                n += 1
                add(safe_job, Spec(fmt=fmt, filter=KERNELS[(n * 7) % len(KERNELS)], sw=sw, sh=sh, dw=dw, dh=dh, tier=t, spad=(0, 4, 5)[n % 3], dpad=(0, 3)[n % 2],
                                   frange=(-1.0, 1.0) if n % 2 else (-9000.0, 9000.0), policy=n % 2, threads=3))
        for zs, zd in ((0, 0), (1, 1), (0, 1)):
            add(reject_job, Spec(fmt=fmt), zs, zd)
            add(reject_job, Spec(fmt=fmt, which='h_scale'), zs, zd)
    for t in TIERS16:
        soft = t in SOFT and q
        rg = dict(fmt=15, tier=t, premul=1, frange=(0.0, 1.0))
        for k, (f, sw, sh, dw, dh) in enumerate([(0, 9, 4, 5, 4), (48, 5, 7, 5, 3), (27, 9, 3, 14, 3), (2, 3, 9, 3, 4)]):
            if soft and k != 3:
                continue
            for seed in (k,) if q else range(6):
                add(premul_job, Spec(filter=f, sw=sw, sh=sh, dw=dw, dh=dh, **rg), seed, label=' alpha pattern %d' % seed)
        for w in (17,) if soft else (39, 17):
            add(premul_job, Spec(filter=48, sw=w, sh=1, dw=w, dh=2, alphas=[(7 * i) % 243 + 13 for i in range(w)], **rg), 0)
        for p in ((0, 0, 0, 255, 128), (0, 255, 0, 254, 0, 0, 17)):
            for f, sw, sh, dw, dh in ((27, 9, 5, 5, 4), (0, 23, 3, 11, 3)):
                if soft:
                    f, sw, sh, dw, dh = 0, 10, 2, 9, 2
                add(invisible_job, Spec(filter=f, sw=sw, sh=sh, dw=dw, dh=dh, alphas=list(p), spad=4, **rg), 0, label=' alphas %s' % (p,))
        for sw, sh, live in DECIDE if q else DECIDE + DECIDE_MORE:
            if soft and sw > 5:
                continue
            add(decision_job, Spec(filter=0, sw=sw, sh=sh, dw=sw - 1, dh=sh, spad=4 * (sh > 1), **rg), live, label=' visible %s' % (live,))
        for sp, dp in ((5, 7), (4, 0)):
            add(premul_stride_job, Spec(filter=27, sw=5, sh=4, dw=7, dh=3, spad=sp, dpad=dp, **rg))
        for pol, th in ((1, 3), (2, 0)):
            add(thread_job, Spec(filter=27, sw=5, sh=6, dw=3, dh=7, policy=pol, threads=th, spad=5, dpad=2, **rg), True)
    return js
