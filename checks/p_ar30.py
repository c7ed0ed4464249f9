"""Packed 10-bit images: each colour field is the kernel average of the same field, the result is opaque, nothing leaks."""
from .base import *
from .conv import *
from .p_conv import SAT

POS = {16: (0, 10, 20, 30), 17: (0, 10, 20, 30), 18: (22, 12, 2, 0), 19: (22, 12, 2, 0)}
MAX = (1023, 1023, 1023, 3)


def word_bytes(w, net):
    b = [T.fmod(T.fdiv(w, 1 << (8 * i)) if i else w, 256) for i in range(4)]
    return b[::-1] if net else b


def fields(bs, fmt):
    """(r, g, b, a) of the four bytes of a pixel (terms or ints)"""
    if fmt & 1:
        bs = bs[::-1]
    w = 0
    for i, b in enumerate(bs):
        w = T.ladd(w, T.lmulc(b, 1 << (8 * i)))
    return [T.fmod(T.fdiv(w, 1 << p) if p else w, m + 1) for p, m in zip(POS[fmt], MAX)]


def packed_source(spec, hi=1023):
    """(bytes, {(x, y): (r, g, b, a)})"""
    px = {}
    rows = []
    for y in range(spec.sh):
        row = []
        for x in range(spec.sw):
            f = [T.ivar(sname(x, y, c), 0, m) for c, m in enumerate(MAX)]
            px[x, y] = f
            w = 0
            for v, p in zip(f, POS[spec.fmt]):
                w = T.ladd(w, T.lmulc(v, 1 << p))
            row += word_bytes(w, spec.fmt & 1)
        row += [T.ivar('sp%d' % (y * spec.sstride + i), 0, 255) for i in range(spec.sw * 4, spec.sstride)]
        rows += row
    return rows, px


def taps2(W, H, x, y):
    """[(weight, source x, source y)] of the separable convolution"""
    hs = W[x] if W else [(x, Fraction(1))]
    vs = H[y] if H else [(y, Fraction(1))]
    return [(a * b, p, q) for q, b in vs for p, a in hs]


def pass_tol(ws):
    n = len(ws)
    return Fraction(1, 2) + slack(ws, 1023) + Fraction(n * 1023, 200000)


def tol_of(W, H, x, y):
    t = Fraction(0)
    if H:
        t += pass_tol(H[y]) * (sum(abs(k) for p, k in W[x]) if W else 1)
    if W:
        t += pass_tol(W[x])
    return t


def packed_job(ctx, rep, spec, cells=None):
    rng = random.Random(3)
    W = axis(spec.filter, spec.sw, spec.dw)
    H = axis(spec.filter, spec.sh, spec.dh)
    src, px = packed_source(spec)
    first = True
    for r in sym(ctx, rep, spec, src):
        if r.rc != 0:
            env = prove(ctx, rep, 0, r.pc)
            if env is not None:
                confirm(ctx, rep, r, env, lambda s, o, d, rc: 'returns error %d for a valid request' % rc if rc else None, 'rc')
            continue
        validate(ctx, rep, r, rng)
        for y in range(spec.dh):
            for x in range(spec.dw):
                if cells and not cells(x, y):
                    continue
                o = y * spec.dstride + 4 * x
                out = fields(r.out[o:o + 4], spec.fmt)
                tp = taps2(W, H, x, y)
                t = tol_of(W, H, x, y)
                over = any(clip(k) != k for A, i in ((W, x), (H, y)) if A for p, k in A[i])
                for c in range(4):
                    name = 'rgba'[c]

                    def terms(cl):
                        hs = [(p, clip(k) if cl else k) for p, k in W[x]] if W else [(x, Fraction(1))]
                        vs = [(p, clip(k) if cl else k) for p, k in H[y]] if H else [(y, Fraction(1))]
                        return [(a * b, p, q) for q, b in vs for p, a in hs]

                    def judge(s, old, d, rc, cl=None):
                        if rc:
                            return 'returns error %d' % rc
                        got = fields(d[o:o + 4], spec.fmt)[c]
                        if c == 3:
                            return None if got == 3 else 'pixel %d,%d is %d of 3 opaque' % (x, y, got)
                        msg = None
                        for q in ((False, True) if over and cl is None else (bool(cl),)):
                            want = clampq(sum(k * fields(s[b * spec.sstride + 4 * a:b * spec.sstride + 4 * a + 4], spec.fmt)[c] for k, a, b in terms(q)), 0, 1023)
                            if abs(got - want) <= t:
                                return None
                            msg = msg or 'field %s of pixel %d,%d is %d, the exact convolution is %.4f (tolerance %.4f)' % (name, x, y, got, float(want), float(t))
                        return msg

                    if c == 3:
                        cond = T.icmp('eq', out[3], 3, 32)
                    else:
                        cond = near(out[c], [(k, px[a, b][c]) for k, a, b in terms(False)], t, 0, 1023)
                    if first and c == 0:
                        first = False
                        if T.support(out[0]) and ctx.solver_model([T.bnot(rle(Fraction(-9, 8) * 512, [(1, out[0])]))] + r.pc) is not None:
                            rep.witness += 1
                    env = prove(ctx, rep, cond, r.pc)
                    if env is not None and over and c < 3:
                        env2 = prove(ctx, rep, near(out[c], [(k, px[a, b][c]) for k, a, b in terms(True)], t, 0, 1023), r.pc)
                        rep.oblig -= 1
                        if env2 is None:
                            env1, cs, co = concretise(r, env)
                            n = native(ctx, r.spec, cs, co)
                            m = judge(cs, co, n['dst'], n['rc'], False)
                            if m and not judge(cs, co, n['dst'], n['rc'], True):
                                rep.known[SAT] = '%s: %s' % (spec.text(), m)
                            continue
                    if env is not None and confirm(ctx, rep, r, env, judge, 'pixel %d,%d,%s' % (x, y, name)):
                        return


def p16(ctx, tier):
    js = []
    q = tier == 'quick'
    n = 0
    for fmt in (16, 17, 18, 19):
        for t in ('scalar', 'sse', 'avx2fma'):
            g = [(27, 9, 5, 14, 5), (2, 13, 6, 5, 6), (27, 23, 5, 4, 5), (0, 12, 1, 5, 1), (0, 7, 3, 2, 3), (8, 5, 4, 9, 4),
                 (27, 3, 7, 3, 9), (0, 13, 23, 13, 8), (2, 21, 9, 21, 4), (0, 5, 5, 3, 7), (9, 4, 7, 9, 3)]
            if not q:
                g += [(f, a, h, b, h) for f in (27, 0, 46, 48, 31) for a, b in ((31, 3), (17, 16), (5, 17), (40, 7)) for h in (1, 2, 4, 9)]
                g += [(f, w, a, w, b) for f in (27, 0, 46, 48) for a, b in ((31, 3), (16, 17), (7, 5)) for w in (1, 8, 9, 16, 17, 33)]
            for f, sw, sh, dw, dh in g:
                n += 1
                s = Spec(fmt=fmt, filter=f, workload=1 + n % 2, sw=sw, sh=sh, dw=dw, dh=dh, tier=t, spad=(0, 4, 8, 5)[n % 4], dpad=(0, 8, 4, 7)[n % 4])
                js.append(Job(packed_job, s, name=s.text()))
    return js
