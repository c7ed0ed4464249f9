"""P26: the code for processors with AVX-512 or AVX-VNNI (built with the nightly feature) under the guarantees of the other code."""
from .p_struct import *
from .p_conv import axis_job, geometries, more_geometries
from .p_alpha import premul_job, invisible_job, decision_job, const_alpha_job, DECIDE, DECIDE_MORE
from .p_mem import safe_job, KERNELS, ALPHA

TIERS512 = ['avxvnni', 'avx512', 'avx512vbmi', 'avx512vnni']
WIDE = [(27, 2, 3, 64), (27, 3, 5, 65), (0, 9, 4, 127), (2, 5, 7, 128), (48, 7, 3, 191), (4, 4, 9, 200)]


FLAG = {'avxvnni': 'avx_vnni', 'avx512vnni': 'avx512_vnni', 'avx512vbmi2': 'avx512_vbmi2'}


def runnable(t):
    """can this machine run the code (results are compared with the compiled library, and counterexamples replayed on it)"""
    for l in open('/proc/cpuinfo'):
        if l.startswith('flags'):
            return all(FLAG.get(f, f) in l.split() for f in D.TIERS[t] if f.startswith('avx'))
    return False


def missing_job(ctx, rep, t):
    rep.unexplored.append('this machine cannot run ' + t)


def p26(ctx, tier):
    q = tier == 'quick'
    js = [Job(missing_job, t, name='cpu ' + t) for t in TIERS512 if not runnable(t)]
    can = [t for t in TIERS512 if runnable(t)]

    def add(fn, s, *a, label=''):
        js.append(Job(fn, s, *a, name='%s %s%s' % (fn.__name__, s.text(), label)))
    n = 0
    for fmt in range(8):
        g = fmt // 4
        for t in can:
            if q and t == 'avx512vbmi':
                continue
            for wl in (1, 2):
                for d in ((8, 10, 12, 16) if q else (1, 4, 8, 9, 10, 11, 12, 13, 14, 15, 16)) if g else (None,):
                    base = Spec(fmt=fmt, tier=t, workload=wl, depth=d)
                    for k, (ax, s) in enumerate(geometries(base, tier)):
                        if q and g and (k + d // 2 + wl) % 4:
                            continue
                        add(axis_job, s, ax)
                for k, (ax, s) in enumerate(more_geometries(Spec(fmt=fmt, tier=t, workload=wl), tier)):
                    if q and (k + fmt) % 2:
                        continue
                    add(axis_job, s.but(depth=(10, 12, 9, 16, 8)[(k + fmt) % 5] if g else 8), ax)
                # each length of the last block of a row
                for k, (f, a, b, w) in enumerate(WIDE):
                    w = w // (g + 1) // CH[fmt % 4] + k % 2
                    add(axis_job, Spec(fmt=fmt, tier=t, workload=wl, depth=(10, 12, 8)[k % 3] if g else None, filter=f, sw=w, dw=w, sh=a, dh=b), 'v')
            for sw, sh, dw, dh in [(9, 7, 5, 4), (4, 5, 9, 11), (23, 3, 40, 5)]:
                n += 1
                s = Spec(fmt=fmt, filter=27, workload=1 + n % 2, sw=sw, sh=sh, dw=dw, dh=dh, tier=t, depth=(10, 12, 16)[n % 3] if g else None)
                add(stride_job, s.but(spad=5, dpad=7))
                add(thread_job, s.but(policy=1, threads=3, spad=1, dpad=2))
                add(isolation_job, s)
            hs = [(1, 3, 2), (2, 1, 5), (3, 5, 4), (4, 9, 7), (5, 17, 3), (6, 4, 9), (7, 33, 2), (9, 3, 1), (13, 7, 12)]
            vs = [(1, 5, 3), (3, 2, 7), (11, 9, 4), (17, 17, 2), (34, 3, 5), (67, 5, 3), (31, 4, 9), (130, 3, 2)]
            for sw, sh, dw, dh in [(a, h, b, h) for h, a, b in hs] + [(w, a, w, b) for w, a, b in vs] + [(5, 7, 3, 11), (2, 9, 7, 4)]:
                n += 1
                s = Spec(fmt=fmt, filter=KERNELS[(n * 7) % len(KERNELS)], workload=1 + n % 2, sw=sw, sh=sh, dw=dw, dh=dh, tier=t, depth=(8, 10, 12, 16, 1, 13)[n % 6] if g else None,
                         spad=(0, 0, 4, 5)[n % 4], dpad=(0, 3, 1)[n % 3], policy=(0, 0, 1)[n % 3], threads=3)
                add(safe_job, s)
                if fmt in (3, 7) and sw * sh <= 60 and dw * dh <= 90:
                    add(safe_job, s.but(premul=1), ALPHA[n % len(ALPHA)], label=' alphas %s' % (ALPHA[n % len(ALPHA)],))
    for fmt in (3, 7):
        for t in can:
            if q and fmt == 7 and t in ('avx512', 'avx512vbmi'):
                continue
            for d in ((10, 16) if fmt == 7 else (None,)):
                vm = 255 if fmt != 7 else (1 << d) - 1
                rg = dict(fmt=fmt, tier=t, premul=1, depth=d)
                al = list(range(256)) if vm == 255 else [a for a in sorted(set(random.Random(5).sample(range(vm + 1), 120) + [vm - 1, vm, vm // 2])) if a * 20 > vm]
                for i in range(0, len(al), 39):
                    part = (al[i:i + 39] + al)[:39]
                    add(premul_job, Spec(filter=48, sw=39, sh=1, dw=39, dh=2, alphas=part, **rg), 0, label=' alphas %d..%d' % (min(part), max(part)))
                for k, (f, sw, sh, dw, dh) in enumerate([(0, 9, 4, 5, 4), (48, 5, 7, 5, 3), (27, 9, 3, 14, 3), (2, 3, 9, 3, 4), (0, 19, 3, 35, 3)]):
                    add(premul_job, Spec(filter=f, sw=sw, sh=sh, dw=dw, dh=dh, workload=1, **rg), k, label=' alpha pattern %d' % k)
                for p in ((0, 0, 0, 255, 128), (0, 255, 0, 254, 0, 0, 17)):
                    for f, sw, sh, dw, dh in ((27, 9, 5, 5, 4), (0, 23, 3, 11, 3), (0, 37, 2, 20, 2)):
                        add(invisible_job, Spec(filter=f, sw=sw, sh=sh, dw=dw, dh=dh, alphas=[a * vm // 255 for a in p], spad=4, **rg), 0, label=' alphas %s' % (p,))
                for sw, sh, live in DECIDE if q else DECIDE + DECIDE_MORE:
                    add(decision_job, Spec(filter=0, sw=sw, sh=sh, dw=sw - 1, dh=sh, spad=4 * (sh > 1), **rg), live, label=' visible %s' % (live,))
                for kind in ('opaque', 'constant'):
                    for f, sw, sh, dw, dh in [(27, 9, 5, 5, 4), (2, 17, 2, 34, 5), (1, 7, 5, 3, 9), (0, 33, 2, 20, 3)]:
                        add(const_alpha_job, Spec(filter=f, sw=sw, sh=sh, dw=dw, dh=dh, spad=7 * (sw % 3 == 0), **rg), kind, label=' ' + kind)
                for sp, dp in ((5, 7), (4, 0)):
                    add(premul_stride_job, Spec(filter=27, sw=5, sh=4, dw=7, dh=3, spad=sp, dpad=dp, **rg))
                for pol, th in ((1, 3), (2, 0)):
                    add(thread_job, Spec(filter=27, sw=5, sh=6, dw=3, dh=7, policy=pol, threads=th, spad=5, dpad=2, **rg), True)
    return js
