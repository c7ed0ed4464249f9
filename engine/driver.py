"""Sets up jobs: builds, CPU tiers, buffers, path enumeration."""
import struct
import sys
import time
from . import build, models, terms as T
from .irparse import parse_ir, UNDEF
from .machine import Machine, Violation, Infeasible, Budget
from .native import Native

sys.setrecursionlimit(20000)

FIELDS = ['fmt', 'filter', 'workload', 'policy', 'threads', 'premul', 'src', 'src_len', 'sw', 'sh', 'sstride', 'sdepth',
          'dst', 'dst_len', 'dw', 'dh', 'dstride', 'ddepth', 'kind', 'schan', 'dchan', 'extra']
WHICH = ['h_resize', 'h_scale', 'h_color', 'h_construct', 'h_copies', 'h_threads', 'h_pool', 'h_contents', 'h_color_ref', 'h_reuse']
INIT = 1 << 63

TIERS = {
    'scalar': [],
    'sse': ['sse41', 'sse2', 'ssse3', 'sse3'],
    'avx': ['sse41', 'sse2', 'ssse3', 'sse3', 'sse42', 'avx', 'fma', 'popcnt'],
    'avx2': ['sse41', 'sse2', 'ssse3', 'sse3', 'sse42', 'avx', 'avx2'],
    'sse_f16c': ['sse41', 'sse2', 'ssse3', 'sse3', 'sse42', 'avx', 'f16c'],
    'sse_f16c_fma': ['sse41', 'sse2', 'ssse3', 'sse3', 'sse42', 'avx', 'f16c', 'fma'],
    'avx2_f16c': ['sse41', 'sse2', 'ssse3', 'sse3', 'sse42', 'avx', 'avx2', 'f16c'],
    'avx2fma': ['sse41', 'sse2', 'ssse3', 'sse3', 'sse42', 'avx', 'avx2', 'fma', 'f16c', 'bmi1', 'bmi2', 'popcnt'],
}
TIERS['avxvnni'] = TIERS['avx2fma'] + ['avxvnni']
TIERS['avx512'] = TIERS['avx2fma'] + ['avx512f', 'avx512bw']
TIERS['avx512vl'] = TIERS['avx512'] + ['avx512vl', 'avx512dq']
TIERS['avx512vbmi'] = TIERS['avx512vl'] + ['avx512vbmi', 'avx512vbmi2', 'avx512ifma']
TIERS['avx512vnni'] = TIERS['avx512vbmi'] + ['avx512vnni', 'avxvnni']


LLVM = {'sse41': 'sse4.1', 'sse42': 'sse4.2', 'bmi1': 'bmi'}


class Ctx:
    """one build of the tree: parsed IR, machine, native library"""

    def __init__(self, features=(), native=True):
        t = time.time()
        h = build.start('ir', features)
        hn = build.start('native', features) if native else None
        self.files = build.finish(h)
        self.so = build.finish(hn) if hn else None
        self.build_secs = time.time() - t
        self.mod = parse_ir(self.files)
        models.setup(self.mod)
        self.native = Native(self.so) if self.so else None
        if self.native:
            T.RCP = lambda x, kind: self.native.rcp([x], kind)[0]
        self.solver = None
        self.m = Machine(self.mod, self.check)
        self.bits = None

    def solver_model(self, conds):
        return self.check(conds)

    def check(self, conds):
        if self.solver is None:
            from .smt import Solver
            self.solver = Solver()
        return self.solver.model(conds)

    def entry(self, name):
        if name in self.mod.funcs:
            return name
        raise KeyError(name)

    def feature_bits(self):
        """feature -> (word, mask) of the std_detect cache, read off the code"""
        if self.bits is None:
            self.bits = {}
            m = self.m
            names = [f for f in self.mod.funcs if f.startswith('probe_')]
            for w in range(3):
                words = {i: INIT for i in range(3)}
                words[w] = INIT | (INIT - 1)
                m.cpu_bits = words
                m.reset()
                for n in names:
                    if n[6:] in self.bits or not m.call(n, []):
                        continue
                    lo, hi = 0, 63
                    # binary search for the bit
                    cand = list(range(63))
                    while len(cand) > 1:
                        half = cand[:len(cand) // 2]
                        m.cpu_bits = dict(words)
                        m.cpu_bits[w] = INIT | sum(1 << b for b in half)
                        m.setup_cpu()
                        cand = half if m.call(n, []) else cand[len(cand) // 2:]
                    self.bits[n[6:]] = (w, 1 << cand[0])
                    m.cpu_bits = words
                    m.setup_cpu()
            m.covered.clear()
        return self.bits

    def cpu_words(self, tier):
        bits = self.feature_bits()
        w = [INIT, INIT, INIT]
        for f in TIERS[tier]:
            if f in bits:
                i, mk = bits[f]
                w[i] |= mk
        return w

    def set_tier(self, tier):
        w = self.cpu_words(tier)
        self.m.cpu_bits = {i: w[i] for i in range(3)}
        self.m.cpu_features = frozenset(LLVM.get(f, f) for f in TIERS[tier]) | {'crc32'}


class Buf:
    """a caller's buffer: `n` elements of `esz` bytes"""

    def __init__(self, m, name, n, esz, init, ro, skew=1):
        # the weakest alignment the element type allows
        off = 64 + esz * skew
        o = m.new_obj(n * esz, name, 'buffer', init, off)
        o.ro = ro
        self.o = o
        self.m = m
        self.n = n
        self.esz = esz
        self.base = o.base

    def fill(self, data):
        self.o.data[:] = data
        self.o.ini[:] = b'\1' * len(data)

    def set(self, i, v):
        ro, self.o.ro = self.o.ro, False
        if v.__class__ in (float, T.F):
            self.m.store_f(self.base + i * self.esz, v, 8 * self.esz, 1)
        else:
            self.m.store_int(self.base + i * self.esz, v, self.esz, 1)
        self.o.ro = ro

    def get(self, i, flt=False):
        if flt:
            return self.m.load_f(self.base + i * self.esz, 8 * self.esz, 1)
        return self.m.load_bytes_int(self.base + i * self.esz, self.esz, 1)


def make_job(m, job, src=None, dst=None):
    o = m.new_obj(240, 'job', 'buffer', True, 64)
    M = (1 << 64) - 1
    for i, k in enumerate(FIELDS):
        v = job.get(k, 0)
        if k == 'src' and src is not None:
            v = src.base
        if k == 'dst' and dst is not None:
            v = dst.base
        if v.__class__ is int:
            v &= M
        m.store_int(o.base + 8 * i, v, 8, 1)
    return o


def paths(ctx, setup, run, max_paths=64):
    """enumerate the paths of run(m) by decision prefixes; yields (m, result of setup, result of run)"""
    m = ctx.m
    todo = [[]]
    n = 0
    while todo:
        pre = todo.pop()
        m.reset()
        m.pending = todo
        m.decisions = list(pre)
        m.dpos = 0
        s = setup(m)
        try:
            r = run(m, s)
        except Infeasible:
            continue
        n += 1
        if n > max_paths:
            raise T.Unsupported('more than %d paths' % max_paths)
        yield m, s, r
