"""Properties decided by comparing the terms two runs produce: strides, threads, copies, nearest, isolation, ..."""
import itertools
from .base import *
from .conv import *

QF = (27, 2, 0)


def same_term(a, b):
    if a.__class__ is float or b.__class__ is float:
        return T.same(a, b)
    return a is b or (a.__class__ is int and b.__class__ is int and a == b)


def eq_cond(a, b, flt):
    if same_term(a, b):
        return 1
    if flt:
        return T.fcmp('oeq', a, b)
    return T.eq0(T.lsub(a, b))


def settled(rep, a, b):
    if len(rep.idents) < rep.ident_cap and a.__class__ not in (int, float):
        rep.idents[a.id] = (a, b)


def prove_equal(ctx, rep, a, b, flt, pc=()):
    """None if the two results agree for every input, else a counterexample"""
    if same_term(a, b):
        rep.oblig += 1
        rep.trivial += 1
        settled(rep, a, b)
        return None
    if flt:
        # the solver only bounds rounding errors: two different expressions are compared through copies of the
        # shared variables, which cannot settle exact equality; see what it says
        return prove(ctx, rep, T.fcmp('oeq', a, b), pc)
    return prove(ctx, rep, T.eq0(T.lsub(a, b)), pc)


def witness(ctx, rep, r, lim=3):
    """reachability: the results do depend on the source"""
    for t in r.out[:lim]:
        if T.support(t):
            rep.witness += 1
            return


def feed(a, b):
    """complete one environment for two runs"""
    return list(a.src) + list(a.old) + list(b.src) + list(b.old)


def compare(ctx, rep, ra, rb, cells, what):
    """the outputs of two runs agree on the cells [(index in a, index in b, label)]; replays a difference on both"""
    flt = ra.spec.flt
    pc = ra.pc + rb.pc
    if ra.rc != rb.rc:
        env = prove(ctx, rep, 0, pc)
        if env is not None:
            report_pair(ctx, rep, ra, rb, env, cells, what)
        return
    for i, j, lab in cells:
        env = prove_equal(ctx, rep, ra.out[i], rb.out[j], flt, pc)
        if env is not None:
            if report_pair(ctx, rep, ra, rb, env, cells, what):
                return


def run_pair(ctx, ra, rb, env):
    env = complete(dict(env), feed(ra, rb))
    outs = []
    for r in (ra, rb):
        cs, co = ev_all(r.src, env, r.spec), ev_all(r.old, env, r.spec)
        outs.append((cs, co, native(ctx, r.spec, cs, co)))
    return outs


def report_pair(ctx, rep, ra, rb, env, cells, what):
    (s1, o1, n1), (s2, o2, n2) = run_pair(ctx, ra, rb, env)
    for r, n, s, o in ((ra, n1, s1, o1), (rb, n2, s2, o2)):
        if 'crash' in n or n['rc'] == -100:
            rep.violation(r.spec, '%s: the compiled library %s' % (r.spec.text(), 'crashes' if 'crash' in n else 'panics'), s, o)
            return True
    if n1['rc'] != n2['rc']:
        rep.violation(ra.spec, '%s: %s: returns %s and %s (%s)' % (ra.spec.text(), what, n1['rc'], n2['rc'], rb.spec.text()), s1, o1)
        return True
    bad = [(lab, n1['dst'][i], n2['dst'][j]) for i, j, lab in cells if not same_v(n1['dst'][i], n2['dst'][j])]
    if bad:
        rep.violation(ra.spec, '%s vs %s: %s: %s is %s and %s' % ((ra.spec.text(), rb.spec.text(), what) + bad[0]), s1, o1,
                      other=dict(spec=dict(rb.spec), src=s2, old=o2))
        return True
    rep.errors.append('counterexample does not reproduce: %s: %s' % (ra.spec.text(), what))
    return False


def random_env(ctx, ra, rb, seed, alpha_pos=None):
    """a random input meeting both path conditions"""
    rng = random.Random(seed)
    env = complete({}, feed(ra, rb))
    for n in env:
        a = T._atoms.get(('var', n))
        if a is not None:
            env[n] = rng.choice([a.lo, a.hi, rng.randint(a.lo, a.hi)])
        elif env[n].__class__ is float:
            env[n] = T.rnd(rng.uniform(*ra.spec.frange), ra.spec.bits)
    return env


def all_cells(sa, sb):
    return [(y * sa.dstride + x, y * sb.dstride + x, 'pixel %d,%d channel %d' % (x // sa.N, y, x % sa.N))
            for y in range(sa.dh) for x in range(sa.dw * sa.N)]


def pair_paths(A, B):
    """pairs of paths that can happen on the same input"""
    for a in A:
        for b in B:
            yield a, b


def feasible(ctx, a, b):
    if not a.pc and not b.pc:
        return True
    return ctx.check(a.pc + b.pc) is not None


def equal_runs(ctx, rep, sa, sb, what, srca=None, srcb=None, cells=None, **k):
    A = sym(ctx, rep, sa, srca, **k)
    B = sym(ctx, rep, sb, srcb, **k)
    for a, b in pair_paths(A, B):
        if len(A) > 1 and not feasible(ctx, a, b):
            continue
        compare(ctx, rep, a, b, cells or all_cells(sa, sb), what)
        if rep.violations:
            return
    if A:
        witness(ctx, rep, A[0])
        validate(ctx, rep, A[0], random.Random(7))
    if B:
        validate(ctx, rep, B[0], random.Random(8))
    return A, B


# ---- P03: an unchanged size is a copy ----------------------------------------------------------

def copy_job(ctx, rep, spec):
    for r in sym(ctx, rep, spec):
        validate(ctx, rep, r, random.Random(3))
        judge_cells(ctx, rep, r, [(y * spec.dstride + i, r.src[y * spec.sstride + i], 'the source sample')
                                  for y in range(spec.dh) for i in range(spec.dw * spec.N)])
        witness(ctx, rep, r)


def judge_cells(ctx, rep, r, want):
    """out[i] equals the given term"""
    spec = r.spec
    if r.rc != 0:
        env = prove(ctx, rep, 0, r.pc)
        if env is not None:
            confirm(ctx, rep, r, env, lambda s, o, d, rc: 'returns error %d for a valid request' % rc if rc else None, 'rc')
        return
    for i, t, lab in want:
        env = prove_equal(ctx, rep, r.out[i], t, spec.flt, r.pc)
        if env is None:
            continue

        def judge(s, o, d, rc):
            e = complete(dict(env), list(r.src) + list(r.old))
            w = ev_all([t], e, spec)[0]
            if rc:
                return 'returns error %d' % rc
            if not same_v(d[i], w):
                return 'element %d of the destination is %s, %s is %s' % (i, d[i], lab, w)
        if confirm(ctx, rep, r, env, judge, lab):
            return


def p03(ctx, tier):
    js = []
    sizes = [(1, 1), (5, 3)] if tier == 'quick' else [(1, 1), (5, 3), (1, 7), (8, 1), (17, 5), (33, 4)]
    for fmt in list(range(12)) + [16, 17, 18, 19]:
        for t in ('avx2fma', 'scalar') if tier == 'quick' else ALL_TIERS:
            for (w, h) in sizes:
                for sp, dp in ((0, 0), (3, 0), (0, 2), (5, 7)) if fmt < 16 else ((0, 0), (4, 8), (8, 0), (0, 12)):
                    for f in (27,) if tier == 'quick' else (27, 1):
                        for pm in (0, 1) if fmt in (3, 7, 11) else (0,):
                            for d in (10, 16) if 4 <= fmt < 8 else (None,):
                                for pol, th in ((0, 0), (1, 3)):
                                    s = Spec(fmt=fmt, sw=w, sh=h, dw=w, dh=h, spad=sp, dpad=dp, tier=t, filter=f, premul=pm, depth=d, policy=pol, threads=th)
                                    js.append(Job(copy_job, s, name=s.text()))
    return js


# ---- P09: padding ------------------------------------------------------------------------------

def stride_job(ctx, rep, spec):
    """the padded call gives the tight call's pixels and leaves the destination's padding alone"""
    tight = spec.but(spad=0, dpad=0)
    got = equal_runs(ctx, rep, spec, tight, 'strides change the result', cells=all_cells(spec, tight))
    if not got or rep.violations:
        return
    for r in got[0]:
        for y in range(spec.dh):
            for i in range(spec.dw * spec.N, spec.dstride):
                k = y * spec.dstride + i
                env = prove_equal(ctx, rep, r.out[k], r.old[k], spec.flt, r.pc)
                if env is not None:
                    def judge(s, o, d, rc):
                        if not same_v(d[k], o[k]):
                            return 'padding element %d changes from %s to %s' % (k, o[k], d[k])
                    if confirm(ctx, rep, r, env, judge, 'padding'):
                        return
        # every pixel is written, whatever the destination held
        for i, j, lab in all_cells(spec, spec):
            bad = [n for n in T.support(r.out[i]) if n[0] == 'd' or n.startswith('sp')]
            rep.oblig += 1
            if not bad:
                rep.trivial += 1
                continue
            if independence(ctx, rep, r, i, lab, bad):
                return


def independence(ctx, rep, r, i, lab, names):
    """does the element depend on these variables?  prove it equal to itself with the variables renamed"""
    spec = r.spec
    ren = {}

    def rn(t):
        if t.__class__ is Lin and len(t.t) == 1 and t.t[0][0].kind == 'var' and t.t[0][0].args[0] in names:
            a = t.t[0][0]
            return T.ivar(a.args[0] + "'", a.lo, a.hi)
        if t.__class__ is F and t.kind == 'fvar' and t.args[0] in names:
            return T.fvar(t.args[0] + "'", t.args[1], t.args[2], t.fmt)
        return t
    src2, old2 = [rn(t) for t in r.src], [rn(t) for t in r.old]
    for r2 in run(ctx, spec, src2, old2):
        r2.src, r2.old = src2, old2
        env = prove_equal(ctx, rep, r.out[i], r2.out[i], spec.flt, r.pc + r2.pc)
        if env is not None and report_pair(ctx, rep, r, r2, env, [(i, i, lab)], 'depends on %s' % ', '.join(names[:3])):
            return True
    return False


def shapes(tier, fmt):
    """(sw, sh, dw, dh) with both passes, one pass, and rows around the block lengths"""
    s = [(9, 6, 5, 4), (7, 5, 7, 9), (6, 5, 13, 5)]
    if tier != 'quick':
        s += [(1, 1, 3, 2), (3, 9, 1, 1), (21, 5, 8, 9), (40, 3, 40, 5), (5, 40, 5, 7), (4, 4, 9, 9), (2, 8, 4, 1)]
    return s


def p09(ctx, tier):
    js = []
    q = tier == 'quick'
    for fmt in list(range(12)) + [16, 18]:
        for t in ('avx2fma', 'sse', 'scalar') if q else ALL_TIERS:
            for k, (sw, sh, dw, dh) in enumerate(shapes(tier, fmt)):
                for f in (27, 1) if q else (27, 1, 0, 48, 37):
                    pads = ((5, 7), (0, 3), (4, 0)) if not q else ((5, 7),)
                    if fmt >= 16:
                        pads = ((4, 8),)
                    for sp, dp in pads:
                        for wl in (2,) if q else (1, 2):
                            for pm in (0, 1) if fmt in (3, 7, 11) and f != 1 else (0,):
                                for d in ((10, 16) if not q else ((10, 16)[k % 2],)) if 4 <= fmt < 8 else (None,):
                                    if pm and (sw * sh > 60 or dw * dh > 60):
                                        continue
                                    s = Spec(fmt=fmt, filter=f, workload=wl, sw=sw, sh=sh, dw=dw, dh=dh, spad=sp, dpad=dp, tier=t, premul=pm, depth=d)
                                    js.append(Job(premul_stride_job if pm else stride_job, s, name=s.text()))
    return js


ALPHAS = (255, 0, 128, 77, 200, 3, 254, 100)


def alpha_source(spec, seed=0, names=True):
    """symbolic colours under concrete, varied alpha"""
    vm = spec.vmax

    def pix(x, y, c):
        if c == 3:
            a = ALPHAS[(x * 3 + y * 5 + seed) % len(ALPHAS)]
            return a / 255.0 if spec.flt else a * vm // 255
    if spec.flt:
        return source(spec, lambda x, y, c: T.rnd(pix(x, y, c), spec.bits) if c == 3 else None)
    return source(spec, pix)


def premul_stride_job(ctx, rep, spec):
    tight = spec.but(spad=0, dpad=0)
    A = sym(ctx, rep, spec, alpha_source(spec))
    B = sym(ctx, rep, tight, alpha_source(tight))
    for a in A:
        for b in B:
            if (a.pc or b.pc) and not feasible(ctx, a, b):
                continue
            compare(ctx, rep, a, b, all_cells(spec, tight), 'strides change the result')
            if rep.violations:
                return
    for r in A:
        for y in range(spec.dh):
            for k in range(y * spec.dstride + spec.dw * spec.N, (y + 1) * spec.dstride):
                env = prove_equal(ctx, rep, r.out[k], r.old[k], spec.flt, r.pc)
                if env is not None:
                    def judge(s, o, d, rc):
                        if not same_v(d[k], o[k]):
                            return 'padding element %d changes from %s to %s' % (k, o[k], d[k])
                    if confirm(ctx, rep, r, env, judge, 'padding'):
                        return
        validate(ctx, rep, r, random.Random(5))
    if A:
        witness(ctx, rep, A[0])


# ---- P13: nearest ------------------------------------------------------------------------------

def nearest_job(ctx, rep, spec):
    """every destination pixel is the source pixel the sample position falls into (half a pixel of slack)"""
    N = spec.N

    def ok(s, x, m, n):
        # |s + 1/2 - (x + 1/2) n / m| <= 1/2, up to single precision of the position
        return abs(Fraction(2 * s + 1, 2) - Fraction((2 * x + 1) * n, 2 * m)) <= Fraction(1, 2) + Fraction(n, 1 << 20)
    for r in sym(ctx, rep, spec):
        validate(ctx, rep, r, random.Random(2))
        witness(ctx, rep, r)
        if r.rc:
            judge_cells(ctx, rep, r, [])
            continue
        back = {}
        for y in range(spec.sh):
            for x in range(spec.sw):
                for c in range(N):
                    back[r.src[y * spec.sstride + x * N + c].id] = (x, y, c)
        for y in range(spec.dh):
            for x in range(spec.dw):
                got = []
                for c in range(N):
                    t = r.px(x, y, c)
                    rep.oblig += 1
                    p = back.get(t.id) if t.__class__ not in (int, float) else None
                    got.append(p)
                good = all(p and p[2] == c for c, p in enumerate(got)) and len(set(p[:2] for p in got)) == 1
                good = good and ok(got[0][0], x, spec.dw, spec.sw) and ok(got[0][1], y, spec.dh, spec.sh)
                if good:
                    rep.trivial += N
                    for c in range(N):
                        settled(rep, r.px(x, y, c), r.src[got[c][1] * spec.sstride + got[c][0] * N + c])
                    continue
                # not a plain copy of an admissible pixel: ask for an input on which no admissible pixel matches
                adm = [(sx, sy) for sx in range(spec.sw) if ok(sx, x, spec.dw, spec.sw) for sy in range(spec.sh) if ok(sy, y, spec.dh, spec.sh)]
                conds = [T.bnot(T.band(*[eq_cond(r.px(x, y, c), r.src[sy * spec.sstride + sx * N + c], spec.flt) for c in range(N)])) for sx, sy in adm]
                env = ctx.check(conds + r.pc)
                if env is not None:
                    def judge(s, o, d, rc):
                        v = d[y * spec.dstride + x * N:y * spec.dstride + x * N + N]
                        if not any(v == s[sy * spec.sstride + sx * N:sy * spec.sstride + sx * N + N] for sx, sy in adm):
                            return 'pixel %d,%d is %s, the nearest source pixels are %s' % (
                                x, y, v, [(p, s[p[1] * spec.sstride + p[0] * N:p[1] * spec.sstride + p[0] * N + N]) for p in adm])
                    if confirm(ctx, rep, r, env, judge, 'nearest'):
                        return


def p13(ctx, tier):
    js = []
    q = tier == 'quick'
    dims = [(1, 5), (5, 1), (4, 9), (9, 4), (7, 3), (3, 7), (8, 8), (2, 17)] if q else \
        [(a, b) for a in range(1, 13) for b in range(1, 13) if a != b] + [(31, 7), (7, 31), (64, 33), (33, 64), (100, 3), (3, 100), (1, 1)]
    for fmt in range(12):
        for t in ('avx2fma', 'scalar') if q else ('avx2fma', 'sse', 'scalar'):
            for i, (a, b) in enumerate(dims):
                c, d = dims[(i * 5 + 3) % len(dims)]
                if a * c > 900 or b * d > 900:
                    c, d = (2, 3)
                for pol, th in ((0, 0), (1, 2)) if q or fmt in (2, 7, 8) else ((0, 0),):
                    s = Spec(fmt=fmt, filter=1, sw=a, sh=c, dw=b, dh=d, tier=t, policy=pol, threads=th, spad=(i % 3) * 2, dpad=(i % 2) * 3)
                    js.append(Job(nearest_job, s, name=s.text()))
    return js


# ---- P14: threads ------------------------------------------------------------------------------

def spans(acc):
    """{object: merged byte ranges}"""
    by = {}
    for o, a, e in acc:
        by.setdefault(o, []).append((a, e))
    for o in by:
        l = sorted(by[o])
        m = [list(l[0])]
        for a, e in l[1:]:
            if a <= m[-1][1]:
                m[-1][1] = max(m[-1][1], e)
            else:
                m.append([a, e])
        by[o] = m
    return by


def footprints(ctx, rep, r):
    """two items of one parallel loop that touch each other's memory: is there a byte one of them writes and the other
    reads or writes?  If not, every interleaving of the items leaves what one after the other leaves."""
    import z3
    for p in r.par:
        if p['locks']:
            continue      # items that lock, count or keep something per thread: left to the comparison of the orders
        rep.oblig += 1
        i, j, o, a = z3.Ints('i j o a')

        def at(acc, k):
            return z3.And(k[1] == k[0], z3.Or([z3.And(o == ob, z3.Or([z3.And(a >= l, a < h) for l, h in sp])) for ob, sp in spans(acc).items()] or [False]))
        # a local variable of the loop's body that the compiler keeps in the frame of the loop itself is each item's own
        own = set(p['stack'])
        for it, rd, wr in p['items']:
            w = spans(wr)
            own -= {o for o, l, h in rd if not any(a <= l and h <= b for a, b in w.get(o, ()))}
        items = [(it, [e for e in rd if e[0] not in own], [e for e in wr if e[0] not in own]) for it, rd, wr in p['items']]
        s = z3.Solver()
        s.add(i < j)
        wi = z3.Or([at(wr, (it, i)) for it, rd, wr in items])
        wj = z3.Or([at(wr, (it, j)) for it, rd, wr in items])
        ai = z3.Or([at(rd + wr, (it, i)) for it, rd, wr in items])
        aj = z3.Or([at(rd + wr, (it, j)) for it, rd, wr in items])
        s.add(z3.Or(z3.And(wi, aj), z3.And(ai, wj)))
        t = time.time()
        v = s.check()
        ctx.solver.queries += 1
        ctx.solver.secs += time.time() - t
        if v == z3.unsat:
            ctx.solver.unsat += 1
            continue
        ctx.solver.sat += 1
        if v == z3.sat:
            m = s.model()
            return ['items %s and %s of a parallel loop over %d interfere at byte %s of an object' % (m[i], m[j], p['n'], m[a])]
        rep.undecided.append('footprints')
    return []


def thread_job(ctx, rep, spec, premul=False):
    single = spec.but(policy=0, threads=0)
    mk = alpha_source if premul else source
    A = sym(ctx, rep, single, mk(single))
    par = 0
    for a in A:
        # the other half of the policy: a single thread means no work is handed to a pool
        rep.oblig += 1
        rep.trivial += 1
        if sum(p['n'] for p in a.par):
            race(ctx, rep, single, a, ['work is handed to other threads although the policy is Single'])
            return
    for sched in ('fwd', 'rev', 'evenodd'):
        B = sym(ctx, rep, spec, mk(spec), sched=sched)
        ctx.m.schedule = 'fwd'
        for b in B:
            bad = footprints(ctx, rep, b)
            par += sum(p['n'] for p in b.par)
            if bad:
                race(ctx, rep, spec, b, bad)
                return
            for a in A:
                if (a.pc or b.pc) and not feasible(ctx, a, b):
                    continue
                compare(ctx, rep, a, b, all_cells(single, spec), 'the threading policy changes the result')
                if rep.violations:
                    return
        if B and sched == 'fwd':
            validate(ctx, rep, B[0], random.Random(4))
    if par:
        rep.witness += 1


def race(ctx, rep, spec, r, bad):
    """interference between parallel items: the real thread pool may or may not show it, so the report rests on the
    footprints; it is replayed in the model's two orders"""
    env = complete(ctx.check(r.pc) or {}, list(r.src) + list(r.old))
    rep.violation(spec, '%s: %s' % (spec.text(), bad[0]), ev_all(r.src, env, spec), ev_all(r.old, env, spec), race=bad[:5])


def p14(ctx, tier):
    js = []
    q = tier == 'quick'
    for fmt in list(range(12)) + [16, 18]:
        for t in ('avx2fma', 'scalar') if q else ALL_TIERS:
            for k, (sw, sh, dw, dh) in enumerate([(9, 7, 5, 11), (6, 9, 13, 6), (3, 10, 2, 37)] if q else [(9, 7, 5, 11), (6, 9, 13, 6), (3, 10, 2, 37), (2, 70, 3, 150), (40, 9, 33, 12), (2, 67, 3, 35), (5, 5, 5, 9), (21, 6, 8, 6), (4, 13, 4, 5)]):
                for f in (27, 1):
                    for pol, th in ((1, 3),) if q else ((1, 2), (1, 3), (1, 7), (2, 0), (1, 0)):
                        for wl in (2,) if q else (1, 2):
                            for pm in (0, 1) if fmt in (3, 7, 11) and f != 1 else (0,):
                                for d in ((8, 16)[k % 2],) if 4 <= fmt < 8 else (None,):
                                    s = Spec(fmt=fmt, filter=f, workload=wl, sw=sw, sh=sh, dw=dw, dh=dh, tier=t, premul=pm, depth=d, policy=pol, threads=th, spad=4 if fmt >= 16 else 1, dpad=4 if fmt >= 16 else 2)
                                    js.append(Job(thread_job, s, bool(pm), name=s.text()))
    return js


# ---- P18: separability -------------------------------------------------------------------------

def separable_job(ctx, rep, spec):
    """a two-dimensional resize is a vertical one followed by a horizontal one (or the other way round)"""
    A = sym(ctx, rep, spec)
    src = A[0].src if A else None
    if not A or len(A) != 1:
        if A:
            raise Unsupported('paths')
        return
    a = A[0]
    validate(ctx, rep, a, random.Random(6))
    witness(ctx, rep, a)
    alt = []
    for first in 'vh':
        mid = spec.but(dw=spec.sw, spad=0, dpad=0) if first == 'v' else spec.but(dh=spec.sh, spad=0, dpad=0)
        m = sym(ctx, rep, mid, source(mid))
        if not m:
            return
        fin = spec.but(sh=spec.dh, spad=0, dpad=0) if first == 'v' else spec.but(sw=spec.dw, spad=0, dpad=0)
        z = sym(ctx, rep, fin, list(m[0].out))
        if not z:
            return
        alt.append((mid, fin, m[0], z[0]))
        cells = all_cells(spec, fin)
        if all(same_term(a.out[i], z[0].out[j]) for i, j, lab in cells):
            for i, j, lab in cells:
                prove_equal(ctx, rep, a.out[i], z[0].out[j], spec.flt)
            return
    # not identical in either order: look for an input on which both orders differ from it
    cells = all_cells(spec, alt[0][1])
    for order, (mid, fin, m, z) in zip('vh', alt[:1]):
        for i, j, lab in cells:
            if not spec.flt:
                env = prove_equal(ctx, rep, a.out[i], z.out[j], spec.flt)
            else:
                rep.oblig += 1
                env = None if same_term(a.out[i], z.out[j]) else random_env(ctx, a, a, 1)
            if env is None:
                continue
            env = complete(dict(env), list(a.src) + list(a.old))
            cs, co = ev_all(a.src, env, spec), ev_all(a.old, env, spec)
            n = native(ctx, spec, cs, co)
            diff = []
            for md, fn, _, _ in alt:
                tight = ev_all(source(md), env, md)
                n1 = native(ctx, md, tight)
                n2 = native(ctx, fn, n1['dst'])
                diff.append([(l, n['dst'][p], n2['dst'][q]) for p, q, l in all_cells(spec, fn) if not same_v(n['dst'][p], n2['dst'][q])])
            if all(diff):
                rep.violation(spec, '%s: differs from resizing one axis after the other: %s is %s instead of %s' % ((spec.text(),) + diff[0][0]), cs, co)
                return
            rep.errors.append('counterexample does not reproduce: separability %s' % spec.text())
            return


def p18(ctx, tier):
    js = []
    q = tier == 'quick'
    for fmt in range(12):
        for t in ('avx2fma', 'sse', 'scalar') if q else ALL_TIERS:
            for k, (sw, sh, dw, dh) in enumerate([(9, 6, 5, 4), (4, 5, 9, 11)] if q else [(9, 6, 5, 4), (4, 5, 9, 11), (17, 3, 6, 5), (3, 17, 5, 6), (12, 12, 7, 7), (1, 4, 3, 3), (4, 1, 3, 3), (6, 6, 1, 1)]):
                for f in ((27, 0)[k % 2],) if q else (27, 0, 2, 48, 41):
                    for wl in (1, 2):
                        for d in ((10, 16)[k % 2],) if 4 <= fmt < 8 else (None,):
                            s = Spec(fmt=fmt, filter=f, workload=wl, sw=sw, sh=sh, dw=dw, dh=dh, tier=t, depth=d, spad=0)
                            js.append(Job(separable_job, s, name=s.text()))
    return js


# ---- P19: isolation ----------------------------------------------------------------------------

def isolation_job(ctx, rep, spec):
    """a destination sample depends on its own channel and on source pixels under the kernel only"""
    N = spec.N
    Wx = axis(spec.filter, spec.sw, spec.dw)
    Wy = axis(spec.filter, spec.sh, spec.dh)
    for r in sym(ctx, rep, spec):
        validate(ctx, rep, r, random.Random(9))
        witness(ctx, rep, r)
        if r.rc:
            judge_cells(ctx, rep, r, [])
            continue
        for y in range(spec.dh):
            ys = {p for p, k in Wy[y]} if Wy else {y}
            for x in range(spec.dw):
                xs = {p for p, k in Wx[x]} if Wx else {x}
                for c in range(N):
                    rep.oblig += 1
                    ok = {sname(p, q, c) for p in xs for q in ys}
                    bad = sorted(T.support(r.px(x, y, c)) - ok)
                    if not bad:
                        rep.trivial += 1
                        settled(rep, r.px(x, y, c), r.px(x, y, c))
                        continue
                    if independence(ctx, rep, r, y * spec.dstride + x * N + c, 'pixel %d,%d channel %d' % (x, y, c), bad):
                        return


def p19(ctx, tier):
    js = []
    q = tier == 'quick'
    for fmt in range(12):
        for t in ALL_TIERS:
            for k, (sw, sh, dw, dh) in enumerate([(11, 7, 5, 5), (5, 5, 13, 9)] if q else [(11, 7, 5, 5), (5, 5, 13, 9), (40, 4, 9, 5), (4, 40, 5, 9), (7, 7, 7, 20), (20, 6, 9, 6)]):
                for f in ((27, 8)[k % 2],) if q else (27, 8, 0, 48, 30):
                    for wl in (1, 2):
                        for d in ((12, 16)[k % 2],) if 4 <= fmt < 8 else (None,):
                            s = Spec(fmt=fmt, filter=f, workload=wl, sw=sw, sh=sh, dw=dw, dh=dh, tier=t, depth=d)
                            js.append(Job(isolation_job, s, name=s.text()))
    return js


# ---- P24: the stores' own scale method ---------------------------------------------------------

def conv_api_job(ctx, rep, spec):
    equal_runs(ctx, rep, spec.but(which='h_scale'), spec, 'the store\'s own scale method and the scaler disagree')
