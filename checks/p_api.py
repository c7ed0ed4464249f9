"""The surface of the API: which descriptions of images are rejected, thread counts, stores, equivalent entry points."""
from .base import *
from .p_struct import (all_cells, compare, feasible, witness, prove_equal, equal_runs, judge_cells, settled)

W64 = (1 << 64) - 1


class Accepted(Exception):
    """the call goes on after its checks"""


def le(a, b):
    return T.icmp('sle', a, b, 512)


def ge1(a):
    return T.bnot(T.eq0(a)) if a.__class__ is not int else int(a != 0)


def dims(spec, side, zero_stride):
    """symbolic description of one image: width, height, stride, buffer length"""
    w = T.ivar(side + '.width', 0, W64)
    h = T.ivar(side + '.height', 0, W64)
    s = 0 if zero_stride else T.ivar(side + '.stride', 0 if spec.packed else 1, W64)
    n = T.ivar(side + '.len', 0, (1 << 63) // spec.esz - 1)
    return w, h, s, n


def well_formed(spec, d):
    w, h, s, n = d
    N = spec.N
    c = [ge1(w), ge1(h)]
    if s.__class__ is int:
        c.append(T.eq0(T.lsub(T.lmulc(T.lmul(w, h), N), n)))
    else:
        c.append(T.eq0(T.lsub(T.lmul(s, h), n)))
        c.append(le(T.lmulc(w, N), s))
    return T.band(*c)


def describe(env, spec):
    return ', '.join('%s %d' % (k, env[k]) for k in sorted(env) if '.' in k)


def reject_job(ctx, rep, spec, zs, zd, sides='sd'):
    """every description of the two images at once: an error is returned exactly for the malformed ones"""
    ctx.set_tier(spec.tier)
    m = ctx.m
    good = {}
    fixed = {'s': (3, 2), 'd': (5, 4)}
    desc = {}
    for k, z in (('s', zs), ('d', zd)):
        if k in sides:
            desc[k] = dims(spec, 'source' if k == 's' else 'destination', z)
            good[k] = well_formed(spec, desc[k])
        else:
            w, h = fixed[k]
            desc[k] = (w, h, w * spec.N, w * spec.N * h)
            good[k] = 1
    depth = T.ivar('destination.depth', 0, W64) if 4 <= spec.fmt < 8 else 0
    wf = T.band(good['s'], good['d'], *([le(1, depth), le(depth, 16)] if depth.__class__ is not int else []))
    bad = T.bnot(wf)
    job = spec.job()
    job.update(sdepth=T.ivar('source.depth', 0, W64), ddepth=depth)
    for k, f in (('s', ('sw', 'sh', 'sstride', 'src_len')), ('d', ('dw', 'dh', 'dstride', 'dst_len'))):
        job.update(zip(f, desc[k]))
    todo = [[]]
    state = {}

    def on_decide(mm):
        if mm.dpos < len(mm.decisions):
            return
        if not state['wf'] and ctx.check(mm.pc + [bad]) is None:
            state['wf'] = True
            mm.max_steps = min(mm.max_steps, mm.steps + 4000)
        if state['wf']:
            state['left'] -= 1
            if state['left'] < 0:
                raise Accepted()
    steps = m.max_steps
    n = 0
    try:
        m.on_decide = on_decide
        while todo:
            pre = todo.pop()
            m.reset()
            m.pending = todo
            m.decisions = list(pre)
            m.dpos = 0
            m.max_steps = 60000
            state.update(wf=False, left=4)
            # nothing may be touched before the checks are through
            s = D.Buf(m, 'source', 0, spec.esz, True, False)
            d = D.Buf(m, 'destination', 0, spec.esz, True, False)
            s.o.ro = True
            j = D.make_job(m, job, s, d)
            why = rc = None
            try:
                rc = m.call_rc(spec.which, [j.base])
            except Infeasible:
                continue
            except (Accepted, Unsupported, Budget) as e:
                if os.environ.get("VP_DEBUG"):
                    print("STOP", repr(e)[:300], m.pc[:12])
                why = 'goes on'
            except Violation as e:
                if os.environ.get("VP_DEBUG"):
                    print("VIOL", e.kind, e.msg, m.pc)
                why = 'goes on' if e.msg.startswith('alloc') else 'panics' if e.kind == 'panic' else 'touches memory'
                m.pc = list(e.pc)
            n += 1
            rep.paths += 1
            rep.steps += m.steps
            if n > 200:
                raise Unsupported('more than 200 paths')
            rep.oblig += 1
            if rc is not None and rc != 0:
                # rejected: only malformed descriptions come here
                if not ask(ctx, rep, spec, m.pc, wf, 'rejected', zs, zd):
                    return
                rep.witness += 1
            else:
                # accepted (or on its way): no malformed description comes here
                if not ask(ctx, rep, spec, m.pc, bad, why or 'accepted', zs, zd):
                    return
                if why == 'panics' and not ask(ctx, rep, spec, m.pc, wf, why, zs, zd):
                    return
                if ctx.check(m.pc + [wf]) is not None:
                    rep.witness += 1
    finally:
        m.on_decide = None
        m.max_steps = steps


def ask(ctx, rep, spec, pc, cond, what, zs, zd):
    """no description meeting `pc` meets `cond` too; False: one does, and the compiled library shows it"""
    base = list(pc) + [cond]
    env = ctx.check(base)
    if env is None:
        return True
    names = [n for n in T.support(T.band(*base)) if '.' in n] if base else []
    for lim in (6, 40, 1000):
        small = [le(T.ivar(n, *bounds(n, spec)), lim) for n in names if not n.endswith('.len')]
        small += [le(T.ivar(n, *bounds(n, spec)), 1 << 16) for n in names if n.endswith('.len')]
        e = ctx.check(base + small)
        if e is not None:
            env = e
            break
    return not replay(ctx, rep, spec, env, what, zs, zd)


def bounds(n, spec):
    if n.endswith('.len'):
        return 0, (1 << 63) // spec.esz - 1
    if n.endswith('.stride'):
        return (0 if spec.packed else 1), W64
    return 0, W64


def replay(ctx, rep, spec, env, what, zs, zd):
    v = lambda n, dflt: int(env.get(n, dflt))
    raw = dict(sw=v('source.width', 3), sh=v('source.height', 2), sstride=0 if zs else v('source.stride', 3 * spec.N),
               src_len=v('source.len', 6 * spec.N), sdepth=v('source.depth', 10),
               dw=v('destination.width', 5), dh=v('destination.height', 4), dstride=0 if zd else v('destination.stride', 5 * spec.N),
               dst_len=v('destination.len', 20 * spec.N), ddepth=v('destination.depth', 10 if 4 <= spec.fmt < 8 else 0))
    txt = 'source %dx%d stride %d length %d, destination %dx%d stride %d length %d depth %d' % tuple(
        raw[k] for k in ('sw', 'sh', 'sstride', 'src_len', 'dw', 'dh', 'dstride', 'dst_len', 'ddepth'))
    if raw['src_len'] * spec.esz > 1 << 22 or raw['dst_len'] * spec.esz > 1 << 22:
        rep.errors.append('cannot be replayed (buffer too large): %s %s: %s' % (spec.text(), what, txt))
        return False
    good = 1
    for w, h, s, n in ((raw['sw'], raw['sh'], raw['sstride'], raw['src_len']), (raw['dw'], raw['dh'], raw['dstride'], raw['dst_len'])):
        if s == 0 and not spec.packed:
            s = w * spec.N
        good = good and w and h and s * h == n and s >= w * spec.N
    if 4 <= spec.fmt < 8:
        good = good and 1 <= raw['ddepth'] <= 16
    job = spec.job()
    job.update(raw)
    src, dst = bytes(raw['src_len'] * spec.esz), bytes([7]) * (raw['dst_len'] * spec.esz)
    for front in (False, True):
        r = ctx.native.run(D.WHICH.index(spec.which), job, src, dst, ctx.cpu_words(spec.tier), True, front)
        if 'crash' in r or r['rc'] == -100:
            got = 'the compiled library ' + ('crashes' if 'crash' in r else 'panics')
            break
        if r['rc'] == 0 and not good:
            got = 'is accepted although malformed'
            break
        if r['rc'] != 0 and good:
            got = 'is rejected with error %d although well-formed' % r['rc']
            break
        if r['rc'] != 0 and r['dst'] != dst:
            got = 'is rejected after the destination was changed'
            break
    else:
        rep.errors.append('counterexample does not reproduce: %s: %s: %s' % (spec.text(), what, txt))
        return False
    rep.violation(spec, '%s: %s: %s' % (spec.text(), txt, got), raw=raw)
    return True


def p02(ctx, tier):
    js = []
    q = tier == 'quick'
    def add(s, *a, **k):
        js.append(Job(reject_job, s, *a, name='%s %s filter %d premul %d policy %d strides given %s %s' % (
            s.which, FNAME[s.fmt], s.filter, s.premul, s.policy, not a[0], not a[1]), **k))
    for fmt in list(range(12)) + [16, 17, 18, 19]:
        for f in (27, 1):
            for pm in (0, 1) if fmt in (3, 7, 11) else (0,):
                for pol, th in ((0, 0), (1, 3)) if q else ((0, 0), (1, 3), (2, 0)):
                    if q and pol and f == 1:
                        continue
                    for zs, zd in ((0, 0), (1, 1), (0, 1), (1, 0)) if fmt < 16 else ((0, 0),):
                        add(Spec(fmt=fmt, filter=f, premul=pm, policy=pol, threads=th, tier='avx2fma'), zs, zd)
        if fmt < 12:
            for zs, zd in ((0, 0), (1, 1)):
                add(Spec(fmt=fmt, filter=27, which='h_scale', tier='avx2fma'), zs, zd)
    return js


# ---- P20: numbers of threads -------------------------------------------------------------------

def out_word(m, j, i):
    return m.load_bytes_int(j.base + 176 + 8 * i, 8, 1)


def count_job(ctx, rep, spec, pool):
    """the thread count of a policy, for every image size, requested count and number of CPUs at once"""
    ctx.set_tier(spec.tier)
    m = ctx.m
    w, h = T.ivar('width', 0, W64), T.ivar('height', 0, W64)
    n = T.ivar('requested', 0, W64)
    job = spec.job()
    job.update(dw=w, dh=h, threads=n)
    avail = None if spec.get('no_avail') else T.ivar('available', 1, 1 << 32)
    m.avail = avail
    which = 'h_pool' if pool else 'h_threads'
    try:
        def setup(mm):
            return D.make_job(mm, job)
        for mm, j, rc in D.paths(ctx, setup, lambda mm, j: mm.call(which, [j.base]), 32):
            rep.paths += 1
            rep.steps += mm.steps
            got = out_word(mm, j, 0)
            asked = [e[1] for e in mm.events if e[0] == 'pool']
            cap = avail if avail is not None else 1
            if spec.policy == 0:
                want = [T.eq0(T.lsub(got, 0 if pool else 1))] + ([0] if asked else [])
            elif spec.policy == 1:
                # the requested count, and one if none is asked for
                want = [T.bor(T.eq0(T.lsub(got, n)), T.band(T.eq0(n), T.eq0(T.lsub(got, 1)))), le(1, got)]
            else:
                want = [le(1, got), le(got, cap)]
            if pool and spec.policy:
                want += [T.eq0(T.lsub(a, got)) for a in asked] + ([] if asked else [0])
            for c in want:
                env = prove(ctx, rep, c, list(mm.pc))
                if env is None:
                    continue
                # prefer what can be shown on this machine
                neg = T.bnot(c)
                for lim in (4, 64, 1 << 20):
                    e = ctx.check(list(mm.pc) + [neg, le(w, 1 << 16), le(h, 1 << 16)] + [le(avail, min(lim, len(os.sched_getaffinity(0))))] * (avail is not None) + [le(n, lim)])
                    if e is not None:
                        env = e
                        break
                if count_replay(ctx, rep, spec, env, pool):
                    return
            if mm.check(list(mm.pc)) is not None:
                rep.witness += 1
    except Violation as e:
        env = complete(dict(e.model or {}), [w, h, n])
        if not count_replay(ctx, rep, spec, env, pool):
            rep.errors.append('%s: %s %s does not reproduce' % (spec.text(), e.kind, e.msg))
    finally:
        m.avail = 8


def count_replay(ctx, rep, spec, env, pool):
    v = lambda k, d: int(env.get(k, d))
    job = spec.job()
    job.update(dw=v('width', 0), dh=v('height', 0), threads=v('requested', 0))
    cpus = sorted(os.sched_getaffinity(0))
    k = min(v('available', len(cpus)), len(cpus))
    if pool and job['threads'] > 256:
        pool = False
    p = ctx.native.worker()
    os.sched_setaffinity(p.pid, set(cpus[:k]))
    r = ctx.native.run(D.WHICH.index('h_pool' if pool else 'h_threads'), job, b'', b'', ctx.cpu_words(spec.tier), False)
    ctx.native.close()
    txt = 'policy %s for %dx%d, %d requested, %d CPUs' % (('Single', 'Fixed', 'Adaptive')[spec.policy], job['dw'], job['dh'], job['threads'], k)
    if 'crash' in r or r['rc'] == -100:
        rep.violation(spec, '%s: the compiled library %s' % (txt, 'crashes' if 'crash' in r else 'panics'), raw=job)
        return True
    got = r['out'][0]
    ok = got == (0 if pool else 1) if spec.policy == 0 else got == max(1, job['threads']) if spec.policy == 1 else 1 <= got <= k
    if not ok:
        rep.violation(spec, '%s: %d threads' % (txt, got), raw=job)
        return True
    rep.errors.append('counterexample does not reproduce: %s' % txt)
    return False


def used_job(ctx, rep, spec):
    """a resize asks for a pool of exactly the size the policy gives, and for none if it is Single"""
    for r in sym(ctx, rep, spec):
        asked = [e[1] for e in r.events if e[0] == 'pool']
        ok = {0: (), 1: (max(1, spec.threads),), 2: range(1, ctx.m.avail + 1)}[spec.policy]
        rep.oblig += 1
        rep.trivial += 1
        rep.witness += 1
        bad = [a for a in asked if a not in ok]
        if bad or (not ok and sum(p['n'] for p in r.par)):
            env = complete(ctx.check(r.pc) or {}, list(r.src) + list(r.old))
            rep.violation(spec, '%s: a pool of %s threads is built' % (spec.text(), bad or 'default'), ev_all(r.src, env, spec), ev_all(r.old, env, spec))
            return
        validate(ctx, rep, r, random.Random(1))


def p20(ctx, tier):
    js = []
    for pol in (0, 1, 2):
        for pool in (False, True):
            js.append(Job(count_job, Spec(policy=pol), pool, name='policy %d %s' % (pol, 'get_pool' if pool else 'thread_count')))
            js.append(Job(count_job, Spec(policy=pol, no_avail=True), pool, name='policy %d %s, unknown number of CPUs' % (pol, 'get_pool' if pool else 'thread_count')))
    for fmt in list(range(12)) + [16, 18]:
        for pm in (0, 1) if fmt in (3, 7, 11) else (0,):
            for f in (27, 1):
                for pol, th in ((0, 0), (1, 0), (1, 1), (1, 3), (2, 0)):
                    for dims in ((5, 4, 3, 7), (5, 4, 5, 7), (5, 4, 3, 4)):
                        s = Spec(fmt=fmt, filter=f, premul=pm, policy=pol, threads=th, sw=dims[0], sh=dims[1], dw=dims[2], dh=dims[3], tier='avx2fma')
                        js.append(Job(used_job, s, name=s.text()))
    return js


# ---- P24: the stores' own scale method ---------------------------------------------------------

def scale_job(ctx, rep, spec):
    """`store.scale(&mut into, options)` is what a scaler of the same kernel does"""
    from .p_struct import alpha_source
    a = spec.but(which='h_scale', workload=0)
    mk = alpha_source if spec.premul else source
    # the threading of both is the same: compare the pools they ask for, too
    A = sym(ctx, rep, a, mk(a))
    B = sym(ctx, rep, spec, mk(spec))
    for x in A:
        for y in B:
            if len(A) * len(B) > 1 and not feasible(ctx, x, y):
                continue
            rep.oblig += 1
            rep.trivial += 1
            px, py = [[e[1] for e in r.events if e[0] == 'pool'] for r in (x, y)]
            if px != py:
                env = complete(ctx.check(x.pc + y.pc) or {}, list(x.src) + list(x.old))
                rep.violation(a, '%s: asks for thread pools %s, the scaler for %s' % (a.text(), px, py), ev_all(x.src, env, a), ev_all(x.old, env, a))
                return
            compare(ctx, rep, x, y, all_cells(a, spec), 'the store\'s scale method and the scaler disagree')
            if rep.violations:
                return
    for r in A[:1] + B[:1]:
        validate(ctx, rep, r, random.Random(2))
        witness(ctx, rep, r)


def p24(ctx, tier):
    js = []
    q = tier == 'quick'
    for fmt in range(12):
        for t in ('avx2fma', 'scalar') if q else ALL_TIERS:
            for f in (27, 0, 1) if q else (27, 0, 1, 2, 8, 37, 48):
                for pm in (0, 1) if fmt in (3, 7, 11) else (0,):
                    for pol in (0, 2):
                        for k, (sw, sh, dw, dh) in enumerate(((9, 6, 5, 4), (5, 4, 5, 7), (5, 4, 9, 4), (4, 3, 4, 3)) if not pm else ((6, 4, 5, 3), (5, 4, 5, 7), (5, 3, 9, 3))):
                            if q and (k + pol + f) % 2 and k:
                                continue
                            d = (10, 16)[k % 2] if 4 <= fmt < 8 else None
                            s = Spec(fmt=fmt, filter=f, workload=2, sw=sw, sh=sh, dw=dw, dh=dh, premul=pm, policy=pol, tier=t, depth=d, spad=2 * (k % 2), dpad=3 * (k // 2))
                            js.append(Job(scale_job, s, name=s.text()))
    return js


# ---- P25: no memory of earlier work ------------------------------------------------------------

WARMUPS = ['the same image', 'the destination turned', 'a smaller source', 'another kernel', 'the other strategy', 'another threading policy', 'another format', 'a rejected request',
           'the other alpha handling', 'another depth', 'a copy', 'nearest', 'a larger source', 'a wider kernel']


def reuse_job(ctx, rep, spec, warm):
    """what was resized before does not show in a result"""
    from .p_struct import alpha_source
    a = spec.but(which='h_reuse', raw=dict(extra=warm))
    mk = alpha_source if spec.premul or warm == 8 and spec.N == 4 else source
    A = sym(ctx, rep, a, mk(a))
    B = sym(ctx, rep, spec, mk(spec))
    for x in A:
        for y in B:
            if len(A) * len(B) > 1 and not feasible(ctx, x, y):
                continue
            rep.oblig += 1
            px, py = [[e[1] for e in r.events if e[0] == 'pool'] for r in (x, y)]
            if px[len(px) - len(py):] != py:
                env = complete(ctx.check(x.pc + y.pc) or {}, list(x.src) + list(x.old))
                rep.violation(a, '%s: asks for thread pools %s, without an earlier resize (%s) for %s' % (a.text(), px, WARMUPS[warm], py), ev_all(x.src, env, a), ev_all(x.old, env, a))
                return
            compare(ctx, rep, x, y, all_cells(a, spec), 'the result depends on an earlier resize (%s)' % WARMUPS[warm])
            if rep.violations:
                return
    for r in A[:1] + B[:1]:
        validate(ctx, rep, r, random.Random(2))
        witness(ctx, rep, r)


def p25(ctx, tier):
    js = []
    q = tier == 'quick'
    n = 0
    for fmt in list(range(12)) + [16, 17, 18, 19]:
        ar = fmt >= 16
        for t in ('avx2fma', 'scalar') if q else ALL_TIERS:
            for f in (2, 27) if q else (2, 27, 0, 8, 1):
                for pol in (0, 1, 2):
                    for k, (sw, sh, dw, dh) in enumerate(((6, 4, 4, 3), (5, 4, 5, 3), (5, 4, 3, 4), (3, 4, 6, 3))):
                        for w in range(14):
                            n += 1
                            if w == 9 and not 4 <= fmt < 8 or w == 8 and fmt not in (3, 7, 11):
                                continue
                            if q and (w + k + f + 2 * pol + fmt + (t == 'scalar')) % 5:
                                continue
                            pm = 1 if fmt in (3, 7, 11) and (n % 3 == 0 or w == 8) else 0
                            wl = (w + k + pol) % 2
                            d = (10, 12, 16)[n % 3] if 4 <= fmt < 8 else None
                            s = Spec(fmt=fmt, filter=f, workload=wl, sw=sw, sh=sh, dw=dw, dh=dh, premul=pm, policy=pol, threads=2, tier=t, depth=d)
                            js.append(Job(reuse_job, s, w, name=s.text() + ' after ' + WARMUPS[w]))
    return js


# ---- P21: image stores -------------------------------------------------------------------------

KINDS = ['ImageStore::from_slice', 'ImageStore::borrow', 'ImageStore::new', 'ImageStoreMut::from_slice', 'ImageStoreMut::borrow',
         'ImageStoreMut::new', 'ImageStore::alloc', 'ImageStoreMut::alloc', 'ImageStoreMut::alloc_with_depth']


def construct_job(ctx, rep, spec):
    """a constructor accepts exactly the buffers of width x height x channels elements and describes them; every size at once"""
    ctx.set_tier(spec.tier)
    m = ctx.m
    N, k = spec.N, spec.kind
    w, h = T.ivar('width', 0, W64), T.ivar('height', 0, W64)
    n = T.ivar('length', 0, ((1 << 63) - 1) // spec.esz)
    area = T.lmulc(T.lmul(w, h), N)
    job = spec.job()
    job.update(sw=w, sh=h, src_len=n, dst_len=n, kind=k, ddepth=T.ivar('depth', 0, W64))
    pre = []
    if k >= 6:
        pre = [le(T.lmulc(area, spec.esz), (1 << 63) - 1), le(T.lmulc(w, N), W64)]
    fits = T.eq0(T.lsub(area, n)) if k < 6 else 1
    m.symalloc = True

    def setup(mm):
        mm.pc = list(pre)
        s = D.Buf(mm, 'source', 0, spec.esz, True, False)
        d = D.Buf(mm, 'destination', 0, spec.esz, True, False)
        return D.make_job(mm, job, s, d)
    try:
        for mm, j, rc in D.paths(ctx, setup, lambda mm, j: mm.call_rc('h_construct', [j.base]), 32):
            rep.paths += 1
            rep.steps += mm.steps
            if rc:
                # rejected: only what does not fit
                conds = [T.bnot(fits)]
            else:
                o = [out_word(mm, j, i) for i in range(8)]
                full = lambda a, b: T.eq0(T.lsub(a, b))
                row = T.lmulc(w, N)
                # a row length that does not fit a machine word is possible for images without rows only
                wide = T.bnot(le(row, W64))
                conds = [fits, full(o[0], w), full(o[1], h), T.bor(wide, full(o[2], row)), full(o[3], N), full(o[4], area),
                         T.bor(wide, full(o[5], row)), full(o[6], w), full(o[7], h)]
            for c in conds:
                env = prove(ctx, rep, c, list(mm.pc))
                if env is None:
                    continue
                for lim in (5, 70):
                    e = ctx.check(list(mm.pc) + [T.bnot(c), le(w, lim), le(h, lim), le(n, 1 << 16)])
                    if e is not None:
                        env = e
                        break
                else:
                    e = ctx.check(list(mm.pc) + [T.bnot(c), le(n, 1 << 16)])
                    env = e or env
                if construct_replay(ctx, rep, spec, env):
                    return
            if mm.check(list(mm.pc)) is not None:
                rep.witness += 1
    except Violation as e:
        env = complete(dict(e.model or {}), [w, h, n])
        if e.pc:
            env = ctx.check(list(e.pc) + [le(n, 1 << 16)]) or env
        if not construct_replay(ctx, rep, spec, complete(env, [w, h, n])):
            rep.errors.append('%s: %s %s does not reproduce' % (KINDS[k], e.kind, e.msg))
    finally:
        m.symalloc = None


def construct_replay(ctx, rep, spec, env):
    v = lambda k: int(env.get(k, 0))
    w, h, n, N, k = v('width'), v('height'), v('length'), spec.N, spec.kind
    txt = '%s::<%s, %d>(%sx%s%s)' % (KINDS[k], TAGS[spec.fmt // 4], N, w, h, ', %d elements' % n if k < 6 else '')
    if n * spec.esz > 1 << 22 or (k >= 6 and w * h * N > 1 << 22):
        rep.errors.append('cannot be replayed: ' + txt)
        return False
    job = spec.job()
    job.update(sw=w, sh=h, src_len=n, dst_len=n, kind=k, ddepth=v('depth'))
    buf = bytes(n * spec.esz)
    r = ctx.native.run(D.WHICH.index('h_construct'), job, buf, buf, ctx.cpu_words(spec.tier), False)
    if 'crash' in r or r['rc'] == -100:
        rep.violation(spec, '%s: the compiled library %s' % (txt, 'crashes' if 'crash' in r else 'panics'), raw=job)
        return True
    good = w * h * N == n or k >= 6
    if (r['rc'] == 0) != good:
        rep.violation(spec, '%s: %s' % (txt, 'is accepted' if r['rc'] == 0 else 'is rejected with error %d' % r['rc']), raw=job)
        return True
    want = [w, h, w * N, N, w * h * N, w * N, w, h]
    if good and list(r['out']) != want and w * N <= W64:
        rep.violation(spec, '%s: width, height, stride, channels, length, stride(), size are %s instead of %s' % (txt, list(r['out']), want), raw=job)
        return True
    rep.errors.append('counterexample does not reproduce: ' + txt)
    return False


def store_run(ctx, spec, which, src, old):
    """run a store function; yields (machine, job object, source and destination elements, rc)"""
    ctx.set_tier(spec.tier)
    job = spec.job()
    job.update(spec.get('raw', {}))

    def setup(mm):
        s = D.Buf(mm, 'source', spec.ns, spec.esz, True, False)
        for i, v in enumerate(src):
            s.set(i, v)
        d = D.Buf(mm, 'destination', len(old), spec.esz, True, False)
        for i, v in enumerate(old):
            d.set(i, v)
        return s, d, D.make_job(mm, job, s, d)
    for mm, (s, d, j), rc in D.paths(ctx, setup, lambda mm, x: mm.call_rc(which, [x[2].base]), 16):
        yield mm, j, [s.get(i, spec.flt) for i in range(spec.ns)], [d.get(i, spec.flt) for i in range(len(old))], rc


def holds_job(ctx, rep, spec, which, want_out, cells, what):
    """the elements a store function leaves in the destination: `cells`, and the fields it reports"""
    src, old = source(spec), old_terms(spec)
    try:
        rs = list(store_run(ctx, spec, which, src, old))
    except Violation as e:
        env = complete(dict(e.model or {}), src + old)
        holds_replay(ctx, rep, spec, which, src, old, env, want_out, cells, what, '%s: %s' % (e.kind, e.msg))
        return
    for mm, j, s2, d2, rc in rs:
        rep.paths += 1
        rep.steps += mm.steps
        conds = [int(rc == 0)] + [eqt(a, b, spec) for a, b in zip(s2, src)] + [eqt(a, b, spec) for a, b in zip(d2, contents(cells, spec, src, old))]
        if want_out:
            conds += [T.eq0(T.lsub(out_word(mm, j, i), v)) for i, v in enumerate(want_out)]
        for c in conds:
            env = prove(ctx, rep, c, list(mm.pc))
            if env is not None:
                holds_replay(ctx, rep, spec, which, src, old, env, want_out, cells, what, 'wrong contents or fields')
                return
        for a in d2:
            settled(rep, a, a) if a.__class__ not in (int, float) else None
        if any(T.support(a) for a in d2 if a.__class__ not in (int, float)):
            rep.witness += 1
        # the same on the compiled library
        env = complete({}, src + old)
        rng = random.Random(3)
        for k in env:
            a = T._atoms.get(('var', k))
            env[k] = rng.randint(a.lo, a.hi) if a is not None else T.rnd(rng.uniform(-1, 1), spec.bits)
        n = native_store(ctx, spec, which, ev_all(src, env, spec), ev_all(old, env, spec))
        rep.validated += 1
        if n.get('rc') != rc or not same_list(unpack(n['dst'], spec), ev_all(d2, env, spec)):
            rep.errors.append('engine and compiled library differ: %s' % what)


def eqt(a, b, spec):
    if a is b:
        return 1
    if spec.flt:
        return T.fcmp('oeq', a, b)
    return T.eq0(T.lsub(a, b))


def contents(kind, s, src, old):
    if kind == 'same':
        return list(src)
    if kind == 'zero':
        return [0.0 if s.flt else 0] * len(old)
    o = list(old)
    for y in range(s.sh):
        for i in range(s.sw * s.N):
            o[y * s.dstride + i] = src[y * s.sstride + i]
    return o


def native_store(ctx, spec, which, cs, co):
    job = spec.job()
    job.update(spec.get('raw', {}))
    return ctx.native.run(D.WHICH.index(which), job, pack(cs, spec), pack(co, spec), ctx.cpu_words(spec.tier), True)


def holds_replay(ctx, rep, spec, which, src, old, env, want_out, cells, what, msg):
    env = complete(dict(env), src + old)
    cs, co = ev_all(src, env, spec), ev_all(old, env, spec)
    n = native_store(ctx, spec, which, cs, co)
    if 'crash' in n or n['rc'] == -100:
        rep.violation(spec, '%s: the compiled library %s' % (what, 'crashes' if 'crash' in n else 'panics'), cs, co)
        return
    want = ev_all(contents(cells, spec, src, old), env, spec)
    got = unpack(n['dst'], spec)
    bad = [(i, g, w) for i, (g, w) in enumerate(zip(got, want)) if not same_v(g, w)]
    if n['rc'] or bad or not n['src_ok'] or (want_out and list(n['out'])[:len(want_out)] != list(want_out)):
        rep.violation(spec, '%s: returns %d, fields %s (expected %s), first wrong element (index, value, expected) %s' % (
            what, n['rc'], list(n['out'])[:6], want_out, bad[:1]), cs, co)
        return
    rep.errors.append('counterexample does not reproduce: %s: %s' % (what, msg))


def p21(ctx, tier):
    js = []
    q = tier == 'quick'
    for fmt in range(12):
        s0 = Spec(fmt=fmt)
        N = s0.N
        for k in range(9):
            s = Spec(fmt=fmt, kind=k, tier='scalar')
            js.append(Job(construct_job, s, name='%s::<%s, %d> of every size' % (KINDS[k], TAGS[fmt // 4], N)))
            for w, h in ((3, 2), (1, 1)) if q else ((3, 2), (1, 1), (17, 3), (1, 40), (64, 1)):
                dep = 11 if k == 8 else 0
                s = Spec(fmt=fmt, kind=k, sw=w, sh=h, dw=w, dh=h, tier='scalar', raw=dict(kind=k, ddepth=dep), depth=16 if 4 <= fmt < 8 else None)
                js.append(Job(holds_job, s, 'h_contents', (w, h, w * N, N, dep, w * h * N), 'same' if k < 6 else 'zero',
                              '%s::<%s, %d>(%dx%d)' % (KINDS[k], TAGS[fmt // 4], N, w, h), name='contents %s %s' % (KINDS[k], s.text())))
        for w, h in ((3, 2), (5, 1)) if q else ((3, 2), (5, 1), (1, 9), (33, 2)):
            for sp in (0, 4):
                for dep in (0, 12) if 4 <= fmt < 8 else (0,):
                    for z in (0, 1) if not sp else (0,):
                        for k, nm in enumerate(('ImageStore::copied', 'ImageStoreMut::copied', 'ImageStoreMut::to_immutable')):
                            s = Spec(fmt=fmt, kind=k, sw=w, sh=h, spad=sp, dw=w, dh=h, dpad=sp, tier='scalar', depth=16 if 4 <= fmt < 8 else None,
                                     raw=dict(kind=k, sdepth=dep, **(dict(sstride=0) if z else {})))
                            js.append(Job(holds_job, s, 'h_copies', (w, h, s.sstride, N, dep, s.sstride * h), 'same', nm + ' of %s' % s.text(), name=nm + ' %s %s' % (s.text(), s.raw)))
                for dp in (0, 3, 4):
                    for z, zd in ((0, 0), (1, 0), (0, 1)):
                        if (z and sp) or (zd and dp):
                            continue
                        raw = dict(kind=3)
                        raw.update(dict(sstride=0) if z else {}, **(dict(dstride=0) if zd else {}))
                        s = Spec(fmt=fmt, kind=3, sw=w, sh=h, spad=sp, dw=w, dh=h, dpad=dp, tier='scalar', depth=16 if 4 <= fmt < 8 else None, raw=raw)

                        js.append(Job(holds_job, s, 'h_copies', None, 'rows', 'copied_to_mut %s' % s.text(), name='copied_to_mut %s %s' % (s.text(), raw)))
    return js
