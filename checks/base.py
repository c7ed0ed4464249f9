"""Common machinery of the checks: symbolic runs, judging, native replay, the job runner, evidence."""
import gc
import hashlib
import json
import math
import multiprocessing
import os
import random
import signal
import struct
import sys
import time
import traceback
from fractions import Fraction

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from engine import driver as D, terms as T, smt          # noqa: E402
from engine.machine import Violation, Infeasible, Budget  # noqa: E402
from engine.terms import Unsupported, Lin, Atom, F, B     # noqa: E402
from engine.smt import Undecided, rle                     # noqa: E402
from engine.irparse import UNDEF                          # noqa: E402
from checks import ref                                    # noqa: E402

CH = [1, 2, 3, 4]
ALL_TIERS = ['scalar', 'sse', 'avx2', 'avx2fma']
TAGS = {0: 'u8', 1: 'u16', 2: 'f32', 3: 'f16'}
FMT = {}
for _g, _t in TAGS.items():
    for _i, _n in enumerate(('plane', 'cbcr', 'rgb', 'rgba')):
        FMT['%s_%s' % (_n, _t)] = 4 * _g + _i
FMT.update(ar30_host=16, ar30_net=17, ra30_host=18, ra30_net=19)
FNAME = {v: k for k, v in FMT.items()}


class Spec(dict):
    """one public call: what is resized into what, and how"""
    __getattr__ = dict.__getitem__

    def __init__(self, **k):
        d = dict(fmt=3, filter=0, workload=1, policy=0, threads=0, premul=0, sw=1, sh=1, dw=1, dh=1, depth=None, spad=0,
                 dpad=0, tier='avx2fma', which='h_resize', kind=0, frange=(-1.0, 1.0), dispatch='full')
        d.update(k)
        if d['depth'] is None:
            d['depth'] = 8 if d['fmt'] < 4 else 10
        dict.__init__(self, d)

    def but(self, **k):
        return Spec(**{**self, **k})

    @property
    def packed(self):
        return self.fmt >= 16

    @property
    def N(self):
        return 4 if self.packed else CH[self.fmt % 4]

    @property
    def esz(self):
        return 1 if self.packed else [1, 2, 4, 2][self.fmt // 4]

    @property
    def flt(self):
        return 8 <= self.fmt < 16

    @property
    def bits(self):
        return 16 if self.fmt // 4 == 3 else 32

    @property
    def vmax(self):
        return (1 << self.depth) - 1 if 4 <= self.fmt < 8 else 255

    @property
    def sstride(self):
        return self.sw * self.N + self.spad

    @property
    def dstride(self):
        return self.dw * self.N + self.dpad

    @property
    def ns(self):
        return self.sstride * self.sh

    @property
    def nd(self):
        return self.dstride * self.dh

    @property
    def sdepth(self):
        # the depth that counts is the destination's: sources that claim the same, none or another one
        return [self.depth, 0, 16][(self.sw + self.dh) % 3] if 4 <= self.fmt < 8 and self.which == 'h_resize' else self.depth

    def job(self):
        return dict(fmt=self.fmt, filter=self.filter, workload=self.workload, policy=self.policy, threads=self.threads,
                    premul=self.premul, src_len=self.ns, sw=self.sw, sh=self.sh,
                    sstride=self.get('sstride_raw', self.sstride), sdepth=self.sdepth, dst_len=self.nd, dw=self.dw,
                    dh=self.dh, dstride=self.get('dstride_raw', self.dstride), ddepth=self.depth, kind=self.kind)

    def text(self):
        s = '%s %s %s wl=%d %dx%d->%dx%d' % (self.which, FNAME[self.fmt], ref.NAMES[self.filter], self.workload,
                                             self.sw, self.sh, self.dw, self.dh)
        if self.which == 'h_color':
            s += ' scaler=%d' % self.kind
        if 4 <= self.fmt < 8:
            s += ' depth=%d' % self.depth
        if self.premul:
            s += ' premultiply'
        if self.spad or self.dpad:
            s += ' pad=%d,%d' % (self.spad, self.dpad)
        if self.policy:
            s += ' policy=%d,%d' % (self.policy, self.threads)
        return s + ' cpu=' + self.tier


class Res:
    """the outcome on one path"""

    def __init__(self, spec, rc, pc, out, m):
        self.spec, self.rc, self.pc, self.out = spec, rc, pc, out
        self.par = m.par
        self.events = m.events
        self.wrote = None

    def px(self, x, y, c):
        return self.out[y * self.spec.dstride + x * self.spec.N + c]


def sname(x, y, c):
    return 's%d.%d.%d' % (y, x, c)


def src_term(spec, x, y, c):
    """the default symbolic source element"""
    if spec.flt:
        return T.fvar(sname(x, y, c), spec.frange[0], spec.frange[1], spec.bits)
    return T.ivar(sname(x, y, c), 0, spec.vmax)


def source(spec, pix=None, pad=None):
    """list of the source buffer's elements; pix(x, y, c) and pad(i) may give terms or values"""
    r = []
    for y in range(spec.sh):
        for i in range(spec.sstride):
            x, c = divmod(i, spec.N)
            if x < spec.sw:
                v = pix(x, y, c) if pix else None
                r.append(src_term(spec, x, y, c) if v is None else v)
            else:
                v = pad(y * spec.sstride + i) if pad else None
                if v is None:
                    n = 'sp%d' % (y * spec.sstride + i)
                    v = T.fvar(n, spec.frange[0], spec.frange[1], spec.bits) if spec.flt else \
                        T.ivar(n, 0, (1 << 8 * spec.esz) - 1)
                r.append(v)
    return r


def old_terms(spec):
    return [T.fvar('d%d' % i, spec.frange[0], spec.frange[1], spec.bits) if spec.flt else
            T.ivar('d%d' % i, 0, (1 << 8 * spec.esz) - 1) for i in range(spec.nd)]


def run(ctx, spec, src=None, old=None, max_paths=16, sched='fwd'):
    """run the call symbolically; returns the list of the paths' outcomes"""
    ctx.set_tier(spec.tier)
    src = source(spec) if src is None else src
    old = old_terms(spec) if old is None else old
    job = spec.job()
    job.update(spec.get('raw', {}))
    ctx.m.schedule = sched
    res = []

    def setup(m):
        s = D.Buf(m, 'source', spec.ns, spec.esz, True, False)
        for i, v in enumerate(src):
            s.set(i, v)
        s.o.ro = True
        d = D.Buf(m, 'destination', spec.nd, spec.esz, True, False)
        for i, v in enumerate(old):
            d.set(i, v)
        return s, d, D.make_job(m, job, s, d)
    for m, (s, d, j), rc in D.paths(ctx, setup, lambda m, x: m.call_rc(spec.which, [x[2].base]), max_paths):
        if rc.__class__ is int and rc >= 1 << 31:
            rc -= 1 << 32
        res.append(Res(spec, rc, list(m.pc), [d.get(i, spec.flt) for i in range(spec.nd)], m))
    return res


# ---- concrete side ----------------------------------------------------------------------------

def pack(vals, spec):
    if spec.flt:
        return struct.pack('<%d%s' % (len(vals), 'e' if spec.bits == 16 else 'f'), *vals)
    return struct.pack('<%d%s' % (len(vals), {1: 'B', 2: 'H'}[spec.esz]), *vals)


def unpack(b, spec):
    if spec.flt:
        f = 'e' if spec.bits == 16 else 'f'
    else:
        f = {1: 'B', 2: 'H'}[spec.esz]
    return list(struct.unpack('<%d%s' % (len(b) // spec.esz, f), b))


def fill_env(terms, env, rng=None):
    """complete an environment over the variables of the terms"""
    e = dict(env)
    for t in terms:
        for n in T.support(t):
            if n not in e:
                a = T._atoms.get(('var', n))
                if a is not None:
                    e[n] = rng.randint(a.lo, a.hi) if rng else a.lo
                else:
                    e[n] = None
    return e


def ev_all(terms, env, spec):
    ev = T.Eval(env)
    r = []
    for t in terms:
        if t.__class__ in (int, float):
            r.append(t)
            continue
        r.append(ev(t))
    return r


def complete(env, terms):
    """values for the variables the model leaves open"""
    def visit(t, seen):
        if t.__class__ in (int, float, str) or t is None or t is UNDEF:
            return
        if t.__class__ is tuple:
            for e in t:
                visit(e, seen)
            return
        if id(t) in seen:
            return
        seen.add(id(t))
        if t.__class__ is Atom and t.kind == 'var':
            env.setdefault(t.args[0], max(t.lo, min(t.hi, 0)))
        elif t.__class__ is F and t.kind == 'fvar':
            env.setdefault(t.args[0], max(t.args[1], min(t.args[2], 0.0)))
        elif t.__class__ is B and t.kind == 'bv':
            env.setdefault(t.args[0], 0)
        else:
            for e in T.children(t):
                visit(e, seen)
    seen = set()
    for t in terms:
        visit(t, seen)
    return env


def native(ctx, spec, src, old=None, guard=True, front=False):
    """run the call on the compiled library with concrete elements; {rc, dst list, src_ok} or {crash}"""
    old = old if old is not None else [0] * spec.nd
    job = spec.job()
    job.update(spec.get('raw', {}))
    r = ctx.native.run(D.WHICH.index(spec.which), job, pack(src, spec), pack(old, spec), ctx.cpu_words(spec.tier), guard,
                       front)
    if 'dst' in r:
        r['out'] = r['out'] if 'out' in r else None
        r['dst'] = unpack(r['dst'], spec)
    return r


# ---- results of a job -------------------------------------------------------------------------

class Rep:
    """what one job found"""

    def __init__(self, name):
        self.name = name
        self.violations = []
        self.known = {}
        self.undecided = []
        self.unexplored = []
        self.errors = []
        self.oblig = 0          # assertions decided
        self.trivial = 0        # of these, settled by term identity / interval facts without the solver
        self.paths = 0
        self.steps = 0
        self.witness = 0        # reachability witnesses found (twin assertion violated)
        self.validated = 0      # outcomes compared with the compiled library
        self.skipped = 0        # results left to a known finding
        self.samples = []
        self.solver = {}
        self.secs = 0.0
        self.covered = set()
        self.ident_cap = IDENT_CAP
        self.idents = {}        # pairs of results that are the same term; handed to the solver in one query per job

    def violation(self, spec, what, src=None, old=None, **extra):
        self.violations.append(dict(spec=dict(spec), what=what, src=src, old=old, **extra))


class Job:
    def __init__(self, fn, *args, name=None, limit=None):
        self.fn, self.args, self.limit = fn, args, limit
        self.name = name or fn.__name__


class TooLong(BaseException):
    pass


CTX = None


def do_job(it):
    i, job, limit = it
    rep = Rep(job.name)
    ctx = CTX
    T.reset()
    ctx.m.covered.clear()
    if ctx.solver is None:
        ctx.solver = smt.Solver()
    s = ctx.solver
    before = (s.queries, s.sat, s.unsat, s.hits, s.secs)
    t = time.time()

    def alarm(*a):
        raise TooLong()
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, job.limit or limit)
    try:
        job.fn(ctx, rep, *job.args)
        ask_identical(ctx, rep)
    except TooLong:
        rep.unexplored.append('%s: time limit' % job.name)
    except (Unsupported, Budget, Undecided, Infeasible, RecursionError, MemoryError) as e:
        rep.unexplored.append('%s: %s: %s' % (job.name, type(e).__name__, str(e)[:300]))
    except Exception:
        rep.errors.append('%s: %s' % (job.name, traceback.format_exc()[-1500:]))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    rep.secs = time.time() - t
    after = (s.queries, s.sat, s.unsat, s.hits, s.secs)
    rep.solver = dict(zip(('queries', 'sat', 'unsat', 'cache_hits', 'secs'), [b - a for a, b in zip(before, after)]))
    rep.covered = set(ctx.m.covered)
    rep.idents = {}
    return i, rep


IDENT_CAP = 48


def ask_identical(ctx, rep):
    """one query per job over the pairs of results that came out as the same term: is there an input on which a pair differs"""
    import z3
    pairs, rep.idents = list(rep.idents.values()), {}
    if not pairs:
        return
    e = smt.Enc(True)
    ds = []
    for a, b in pairs:
        try:
            if a.__class__ in (F, float):
                ds.append(e.f(a) != e.f(b))
            else:
                ds.append(e.lin(a) != e.lin(b))
        except Unsupported:
            pass
    if not ds:
        return
    s = z3.Solver()
    s.set('timeout', 5000)
    for c in e.cons:
        s.add(c)
    s.add(z3.Or(*ds))
    t = time.time()
    v = s.check()
    ctx.solver.queries += 1
    ctx.solver.secs += time.time() - t
    if v == z3.unsat:
        ctx.solver.unsat += 1
    else:
        rep.undecided.append('%s: identical terms' % rep.name)


def run_jobs(ctx, jobs, deadline, limit, workers=8, known=()):
    """all jobs over forked workers; stops at the deadline, and shortly after a violation that is not a known finding"""
    global CTX
    CTX = ctx
    ctx.feature_bits()
    if ctx.native:
        ctx.native.close()
    gc.collect()
    gc.freeze()
    reps = [None] * len(jobs)
    mp = multiprocessing.get_context('fork')
    order = list(range(len(jobs)))
    # mixed, so that what a time limit cuts off is spread over everything
    random.Random(ctx.seed).shuffle(order)
    with mp.Pool(min(workers, max(1, len(jobs)))) as pool:
        it = pool.imap_unordered(do_job, [(i, jobs[i], limit) for i in order], chunksize=1)
        n = 0
        while n < len(jobs):
            left = deadline - time.time()
            if left <= 0:
                break
            try:
                i, rep = it.next(timeout=left)
            except multiprocessing.TimeoutError:
                break
            reps[i] = rep
            n += 1
            if any(v.get('key') not in known for v in rep.violations) or any(k not in known for k in rep.known):
                deadline = min(deadline, time.time() + float(os.environ.get("VP_GRACE", "10")))
        pool.terminate()
    for i, r in enumerate(reps):
        if r is None:
            r = reps[i] = Rep(jobs[i].name)
            r.unexplored.append('%s: not reached within the time budget' % jobs[i].name)
    return reps


# ---- obligations ------------------------------------------------------------------------------

def prove(ctx, rep, cond, pc=()):
    """decide one assertion; None if it holds, else a counterexample environment"""
    rep.oblig += 1
    if cond.__class__ is int:
        rep.trivial += 1
        if cond:
            return None
        if not pc:
            return {}
        return ctx.check(list(pc))
    if ctx.solver is None:
        ctx.solver = smt.Solver()
    try:
        return ctx.solver.holds(cond, pc)
    except Undecided as e:
        rep.undecided.append(str(e)[:200])
        return None


def memory_violation(ctx, rep, spec, e, src, old):
    """an access or panic the engine found: replay it on the compiled library"""
    env = complete(dict(e.model or {}), [t for t in src + old])
    cs = [v for v in ev_all(src, env, spec)]
    co = [v for v in ev_all(old, env, spec)]
    seen = []
    for front in (False, True):
        r = native(ctx, spec, cs, co, True, front)
        if 'crash' in r:
            seen.append('crashes (%s)' % r['crash'])
        elif r['rc'] == -100:
            seen.append('panics')
    what = '%s: %s: %s' % (spec.text(), e.kind, str(e)[:300])
    what += '; compiled library ' + (seen[0] if seen else 'shows no crash on this input')
    rep.violation(spec, what, cs, co, native=bool(seen), kind=e.kind)


def sym(ctx, rep, spec, src=None, old=None, **k):
    """run symbolically; records memory errors and panics as violations and returns [] for them"""
    src = source(spec) if src is None else src
    old = old_terms(spec) if old is None else old
    try:
        res = run(ctx, spec, src, old, **k)
    except Violation as e:
        memory_violation(ctx, rep, spec, e, src, old)
        return []
    rep.paths += len(res)
    rep.steps += ctx.m.steps
    for r in res:
        r.src = src
        r.old = old
    return res


def concretise(r, env):
    """the concrete source and old destination of a counterexample"""
    env = complete(dict(env), list(r.src) + list(r.old))
    return env, ev_all(r.src, env, r.spec), ev_all(r.old, env, r.spec)


def validate(ctx, rep, r, rng):
    """compare one path's outcome with the compiled library on a random input satisfying the path"""
    env = {}
    complete(env, list(r.src) + list(r.old))
    for n in env:
        a = T._atoms.get(('var', n))
        if a is not None:
            env[n] = rng.choice([a.lo, a.hi, rng.randint(a.lo, a.hi)])
        else:
            v = env[n]
            env[n] = T.rnd(rng.uniform(*r.spec.frange), r.spec.bits) if v.__class__ is float else rng.randint(0, 1)
    ev = T.Eval(env)
    if not all(ev(c) for c in r.pc):
        m = ctx.check(r.pc)
        if m is None:
            return
        env.update(m)
    cs, co = ev_all(r.src, env, r.spec), ev_all(r.old, env, r.spec)
    want = ev_all(r.out, env, r.spec)
    n = native(ctx, r.spec, cs, co)
    rep.validated += 1
    got = n.get('dst')
    if n.get('rc') != r.rc or not same_list(got, want):
        bad = [] if got is None else [(i, a, b) for i, (a, b) in enumerate(zip(want, got)) if not same_v(a, b)][:5]
        rep.errors.append('engine and compiled library differ: %s rc %s/%s %s' % (r.spec.text(), r.rc, n.get('rc', n), bad))


def same_v(a, b):
    return a == b or (a != a and b != b)


def same_list(a, b):
    return a is not None and len(a) == len(b) and all(same_v(x, y) for x, y in zip(a, b))


def confirm(ctx, rep, r, env, judge, what, key=None):
    """replay a counterexample on the compiled library: judge(src, old, out) returns a message if it is broken there too"""
    env, cs, co = concretise(r, env)
    n = native(ctx, r.spec, cs, co)
    if 'crash' in n or n['rc'] == -100:
        rep.violation(r.spec, '%s: the compiled library %s' % (r.spec.text(), 'crashes' if 'crash' in n else 'panics'), cs, co)
        return True
    msg = judge(cs, co, n['dst'], n['rc'])
    if msg:
        rep.violation(r.spec, '%s: %s' % (r.spec.text(), msg), cs, co, out=n['dst'], key=key)
        return True
    rep.errors.append('counterexample does not reproduce: %s: %s' % (r.spec.text(), what))
    return False
