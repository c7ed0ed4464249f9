"""Every valid resize ends well: no stray access, no panic, no instruction the CPU lacks, every pixel written."""
from .base import *
from .conv import *
from .p_struct import all_cells, witness, independence, settled

FEATURE_SETS = ALL_TIERS + ['avx']


def safe_job(ctx, rep, spec, alpha=None):
    src = source(spec)
    if alpha is not None:
        for y in range(spec.sh):
            for x in range(spec.sw):
                a = alpha[(y * spec.sw + x) % len(alpha)]
                if a is None:
                    continue
                src[y * spec.sstride + x * 4 + 3] = T.rnd(a / 255.0, spec.bits) if spec.flt else (a * spec.vmax + 127) // 255
    for r in sym(ctx, rep, spec, src, max_paths=64):
        rep.oblig += 1
        if r.rc != 0:
            env = prove(ctx, rep, 0, r.pc)
            if env is not None:
                confirm(ctx, rep, r, env, lambda s, o, d, rc: 'returns error %d for a valid request' % rc if rc else None, 'rc')
            continue
        rep.trivial += 1
        validate(ctx, rep, r, random.Random(2))
        witness(ctx, rep, r)
        for i, j, lab in all_cells(spec, spec):
            rep.oblig += 1
            t = r.out[i]
            if t is UNDEF:
                undefined(ctx, rep, r, lab)
                return
            old = sorted(n for n in T.support(t) if n[0] == 'd' or n.startswith('sp'))
            if not old:
                rep.trivial += 1
                settled(rep, t, t)
            elif independence(ctx, rep, r, i, lab, old):
                return


def undefined(ctx, rep, r, lab):
    env = complete(ctx.check(r.pc) or {}, list(r.src) + list(r.old))
    rep.violation(r.spec, '%s: %s is left with an undefined value' % (r.spec.text(), lab), ev_all(r.src, env, r.spec), ev_all(r.old, env, r.spec))


KERNELS = [0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41,
           42, 43, 44, 45, 46, 47, 48]


def p01(ctx, tier):
    js = []
    q = tier == 'quick'
    n = 0

    def add(s, *a):
        js.append(Job(safe_job, s, *a, name=s.text() + (' alphas %s' % (a[0],) if a else '')))
    for fmt in list(range(12)) + [16, 17, 18, 19]:
        g = 0 if fmt >= 16 else fmt // 4
        # one pass along the rows: heights around the blocks of rows, widths and taps around the blocks of taps
        hs = [(1, 3, 2), (2, 1, 5), (3, 5, 4), (4, 9, 7), (5, 17, 3), (6, 4, 9), (7, 33, 2), (9, 3, 1), (13, 7, 12)] if q else \
            [(h, a, b) for h in (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13) for a, b in ((1, 5), (2, 3), (3, 1), (4, 9), (5, 2), (7, 8), (9, 7), (17, 3), (33, 2), (64, 5), (6, 19))]
        # one pass down the columns: widths around the blocks of columns
        vs = [(1, 5, 3), (3, 2, 7), (11, 9, 4), (17, 17, 2), (34, 3, 5), (67, 5, 3)] if q else \
            [(w, a, b) for w in (1, 2, 3, 5, 7, 8, 9, 11, 15, 16, 17, 21, 31, 34, 47, 64, 67, 97) for a, b in ((1, 4), (2, 3), (5, 3), (17, 2), (4, 9), (40, 3))]
        bs = [(1, 1, 2, 3), (5, 7, 3, 11), (2, 9, 7, 4)] if q else [(1, 1, 2, 3), (5, 7, 3, 11), (2, 9, 7, 4), (31, 1, 1, 9), (1, 31, 9, 1), (1, 1, 17, 17), (40, 40, 1, 1), (13, 13, 12, 14)]
        for t in FEATURE_SETS if fmt < 16 else ('scalar', 'sse', 'avx2fma'):
            for sw, sh, dw, dh in [(a, h, b, h) for h, a, b in hs] + [(w, a, w, b) for w, a, b in vs] + bs:
                n += 1
                f = KERNELS[(n * 7) % len(KERNELS)]
                wl = 1 + (n % 2)
                d = (8, 10, 12, 16, 1, 13)[n % 6] if g == 1 else None
                s = Spec(fmt=fmt, filter=f, workload=wl, sw=sw, sh=sh, dw=dw, dh=dh, tier=t, depth=d,
                         spad=(0, 0, 4, 5)[n % 4] if fmt < 16 else (0, 4, 8)[n % 3], dpad=(0, 3, 1)[n % 3] if fmt < 16 else (4, 0)[n % 2],
                         frange=(-1.0, 1.0) if n % 2 else (-1e30, 1e30), policy=(0, 0, 1)[n % 3], threads=3)
                add(s)
                if fmt in (3, 7, 11) and sw * sh <= 60 and dw * dh <= 90:
                    add(s.but(premul=1, frange=(-1.0, 1.0)), ALPHA[n % len(ALPHA)])
            # any alpha
            if fmt in (3, 7, 11):
                for sw, sh, dw, dh in ((1, 1, 2, 1), (1, 2, 1, 1), (2, 1, 1, 1)) if q else ((1, 1, 2, 1), (1, 2, 1, 1), (2, 1, 1, 1), (1, 1, 1, 3), (3, 1, 2, 1), (2, 2, 1, 2)):
                    n += 1
                    add(Spec(fmt=fmt, filter=(0, 27)[n % 2], workload=1 + n % 2, sw=sw, sh=sh, dw=dw, dh=dh, tier=t, depth=(8, 10, 16)[n % 3] if g == 1 else None, premul=1), (None,))
            # extreme ratios
            for sw, sh, dw, dh in ((200, 1, 1, 1), (1, 200, 1, 1), (1, 1, 150, 1), (1, 1, 1, 150)):
                n += 1
                add(Spec(fmt=fmt, filter=(27, 0, 48, 6)[n % 4], workload=1 + n % 2, sw=sw, sh=sh, dw=dw, dh=dh, tier=t, depth=(10, 16)[n % 2] if g == 1 else None))
    return js


ALPHA = [(0, 255, 128, 77, 3, 200, 254), (0,), (255, 255, 0), (1, 2, 255, 9, 120)]
