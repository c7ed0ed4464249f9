"""P22: the colour-space scalers are the plain scaler between the conversions they name."""
from .p_struct import *
from .p_api import reject_job
from engine import smt as SM

KINDS = ('Lab', 'LCh', 'Luv', 'XYZ', 'Linear', 'LinearApprox', 'Sigmoidal', 'Oklab', 'Jzazbz')
TRANSFER = (0, 1, 2, 6, 8, 9, 11)
HAS_TRANSFER = (4, 5, 7, 8)


def composed_job(ctx, rep, spec):
    """the scaler on (possibly padded) images agrees with conversion, plain resize and conversion back on tight ones"""
    SM.LOOSE = True
    rep.ident_cap = 6
    tight = spec.but(spad=0, dpad=0, which='h_color_ref')
    sa, sb = (alpha_source(spec), alpha_source(tight)) if spec.premul else (None, None)
    got = equal_runs(ctx, rep, spec, tight, 'not what the conversions and the plain scaler give', srca=sa, srcb=sb)
    if not got or rep.violations:
        return
    A, B = got
    for r in A:
        for y in range(spec.dh):
            for i in range(spec.dw * spec.N, spec.dstride):
                k = y * spec.dstride + i
                env = prove_equal(ctx, rep, r.out[k], r.old[k], False, r.pc)
                if env is not None:
                    def judge(s, o, d, rc):
                        if d[k] != o[k]:
                            return 'padding element %d changes from %s to %s' % (k, o[k], d[k])
                    if confirm(ctx, rep, r, env, judge, 'padding'):
                        return
        for i, j, lab in all_cells(spec, spec):
            rep.oblig += 1
            bad = [n for n in T.support(r.out[i]) if n[0] == 'd' or n.startswith('sp')]
            if not bad:
                rep.trivial += 1
            elif independence(ctx, rep, r, i, lab, bad):
                return
    # the same number of worker threads is asked for
    if len(A) == len(B) == 1:
        rep.oblig += 1
        rep.trivial += 1
        pa, pb = ([e for e in r.events if e[0] == 'pool'] for r in (A[0], B[0]))
        if pa != pb:
            rep.violation(spec, '%s: asks for worker threads %s where the plain scaler with the same policy asks for %s' % (
                spec.text(), [e[1] for e in pa], [e[1] for e in pb]))


def same_size_job(ctx, rep, spec):
    SM.LOOSE = True
    copy_job(ctx, rep, spec)


def p22(ctx, tier):
    q = tier == 'quick'
    js = []

    def add(fn, s, *a):
        js.append(Job(fn, s, *a, name=s.text() + ''.join(' %s' % x for x in a)))
    tiers = ('avx2fma', 'sse', 'scalar')
    for kind in range(9):
        for fmt in (2, 3):
            for pm in (0, 1) if fmt == 3 else (0,):
                b = Spec(which='h_color', fmt=fmt, kind=kind, sw=3, sh=2, dw=2, dh=3, filter=27, premul=pm, tier='avx2fma')
                for sp, dp in ((0, 0), (5, 3), (1, 0), (0, 2)):
                    add(composed_job, b.but(spad=sp, dpad=dp))
                add(composed_job, b.but(sw=2, sh=3, dw=5, dh=2, filter=2, spad=2, dpad=4))
                for t in tiers[1:]:
                    add(composed_job, b.but(tier=t, spad=2, dpad=1, filter=3))
                for f in (1, 2) if q else range(33):
                    add(composed_job, b.but(filter=f, dpad=2))
                if not q:
                    for t in tiers:
                        for sh in ((4, 5, 9, 3), (9, 2, 4, 7), (17, 1, 5, 1), (1, 9, 1, 4), (3, 3, 17, 5)):
                            add(composed_job, b.but(tier=t, sw=sh[0], sh=sh[1], dw=sh[2], dh=sh[3], spad=7, dpad=1))
                for pol, th in ((1, 3), (2, 0), (1, 2)):
                    add(composed_job, b.but(policy=pol, threads=th, sw=4, sh=5, dw=3, dh=4, filter=2, dpad=1))
                for pol in (0, 1):
                    add(same_size_job, b.but(sw=4, sh=3, dw=4, dh=3, spad=5, dpad=2, policy=pol, threads=3))
                if kind in HAS_TRANSFER:
                    for x in TRANSFER[1:4] if q else TRANSFER[1:]:
                        add(composed_job, b.but(raw=dict(extra=x), spad=1))
                if not pm or not q:
                    for zs, zd in ((0, 0), (1, 1)):
                        add(reject_job, b, zs, zd)
    return js
