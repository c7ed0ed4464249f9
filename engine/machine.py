"""Symbolic machine: memory, control flow, calls, intrinsics.

Functions of the parsed IR are compiled, block by block, to Python closures over a register list.
Branches on symbolic conditions are merged at the immediate post-dominator where that is possible
(both sides executed under a write journal) and forked otherwise. Every memory access is checked
(bounds, liveness, write permission, alignment, initialisedness), every call of a panic function is
an assertion that it is unreachable.
"""
import struct
from .irparse import UNDEF, ParseError, tokenize, zero_of, undef_of
from . import terms as T
from .terms import Lin, B, F, Unsupported


class Violation(Exception):
    def __init__(self, kind, msg, model=None):
        Exception.__init__(self, kind + ': ' + msg)
        self.pc = []
        self.kind = kind
        self.msg = msg
        self.model = model


class Infeasible(Exception):
    """the current path condition is unsatisfiable"""


class NoMerge(Exception):
    pass


class Budget(Exception):
    pass


class Obj:
    __slots__ = ('id', 'base', 'size', 'data', 'ini', 'sym', 'ro', 'alive', 'name', 'kind', 'init', 'ini0', 'align')

    def __init__(self, id, base, size, name, kind, init):
        self.id = id
        self.base = base
        self.size = size
        self.data = bytearray(size)
        self.ini = bytearray(b'\1' * size) if init else bytearray(size)
        self.sym = {}
        self.ro = False
        self.alive = True
        self.name = name
        self.kind = kind
        self.init = None
        self.ini0 = self.ini


FN_OBJ = 1
PANIC_WORDS = ('panicking', 'slice_index_fail', 'unwrap_failed', 'expect_failed', 'assert_failed',
               'handle_error', 'handle_alloc_error', 'capacity_overflow', 'slice_error_fail',
               'slice_start_index', 'slice_end_index', 'slice_index_order', 'len_mismatch_fail',
               'copy_from_slice_impl', 'option_expect', 'result_unwrap', 'rust_panic', 'begin_panic',
               'rust_begin_unwind', 'div_by_zero', 'panic_')

PTRW = 64


BASE_FEATURES = frozenset(('sse', 'sse2', 'fxsr', 'x87', 'mmx', 'cx8', 'cmov'))


class Machine:
    def __init__(self, mod, solver=None):
        self.mod = mod
        self.solver = solver          # callable: list of B -> model or None
        self.code = {}                # function name -> compiled function
        self.fn_addr = {}
        self.addr_fn = {}
        self.gaddr = {}
        self.gobjs = {}               # persistent (global) objects
        self.next_gid = 2
        self.cpu_bits = {}            # word index -> mask for the std_detect cache
        self.covered = set()
        self.stats = dict(steps=0, forks=0, merges=0, queries=0, loads=0, stores=0)
        self.max_steps = 3_000_000
        self.avail = 8
        self.symalloc = None
        self.on_decide = None         # called before each fork
        self.pool_ok = 1
        self.cpu_features = None      # what the simulated CPU has (names of target features), None: everything
        self.schedule = 'fwd'
        self.uf_calls = None
        self.reset()

    # ------------------------------------------------------------ state
    def reset(self):
        self.objs = dict(self.gobjs)
        for o in self.gobjs.values():
            if not o.ro:
                if o.init is not None:
                    o.data[:] = o.init
                    o.ini[:] = o.ini0
                o.sym.clear()
        self.next_id = 1 << 16
        self.symsizes = {}
        self.pc = []
        self.journal = None
        self.steps = 0
        self.decisions = []
        self.dpos = 0
        self.pending = None
        self.par = []                 # finished parallel regions
        self.par_stack = []
        self.log = None
        self.events = []
        self.frames = []
        self.merge_depth = 0
        self.setup_cpu()

    def setup_cpu(self):
        for k, v in self.cpu_bits.items():
            a = self.global_addr(CACHE)
            o = self.objs[a >> 32]
            struct.pack_into('<Q', o.data, 8 * k, v)

    def new_obj(self, size, name, kind='heap', init=False, align_off=16, ro=False):
        if kind == 'heap' and self.merge_depth:
            raise NoMerge('allocation')
        i = self.next_id
        self.next_id += 1
        o = Obj(i, (i << 32) + align_off, size, name, kind, init)
        o.ro = ro
        self.objs[i] = o
        return o

    def global_addr(self, name, file=None):
        key = (file, name) if (file, name) in self.mod.globals else name
        a = self.gaddr.get(key)
        if a is not None:
            return a
        if name in self.mod.funcs or name in self.mod.decls:
            return self.func_addr(name)
        g = self.mod.globals.get(key)
        if g is None:
            return self.func_addr(name)
        i = self.next_gid
        self.next_gid += 1
        rest = g['rest']
        if g['ext']:
            size = 24 if 'detect5cache5CACHE' in name or 'detect..cache..CACHE' in name else 4096
            o = Obj(i, (i << 32) + 64, size, name, 'extern', 'CACHE' in name)
            o.init = bytes(size)
            if 'panic_count' in name:
                o.ini[:] = b'\1' * size    # nothing panics before
            elif 'CACHE' not in name:
                o.alive = False             # not ours: whatever is in there is unknown
            o.ini0 = bytes(o.ini)
            self.gaddr[key] = o.base
            self.gobjs[i] = o
            self.objs[i] = o
            return o.base
        kind = 'constant' if ' constant ' in ' ' + rest else 'global'
        body = (' ' + rest).split(' ' + kind + ' ', 1)[1]
        toks = tokenize(body)
        t, j = self.mod.ptype(toks, 0)
        v, j = self.mod.pval(t, toks, j)
        size = self.mod.size(t)
        al = 16
        for k in range(j, len(toks) - 1):
            if toks[k] == 'align':
                al = int(toks[k + 1])
                break
        o = Obj(i, (i << 32) + max(64, al) + (al if al < 64 else 0), size, name, 'const' if kind == 'constant' else 'global', True)
        self.gaddr[key] = o.base
        self.gobjs[i] = o
        self.objs[i] = o
        self.init_const(o, 0, t, v, g['file'])
        if kind == 'constant':
            o.ro = True
        else:
            o.init = bytes(o.data)
            o.ini0 = bytes(o.ini)
            if ' thread_local' in ' ' + rest.split(' global ')[0]:
                o.kind = 'tls'
        return o.base

    def init_const(self, o, off, t, v, file):
        if v[0] == 'g':
            a = self.global_addr(v[1], file) + v[2]
            o.data[off:off + 8] = a.to_bytes(8, 'little')
        elif v[0] == 'agg':
            for i, e in enumerate(v[2]):
                fo, ft = self.mod.field(t, i)
                self.init_const(o, off + fo, ft, e, file)
        else:
            self.init_bytes(o, off, t, v[1])

    def init_bytes(self, o, off, t, v):
        if v is UNDEF:
            n = self.mod.size(t)
            o.ini[off:off + n] = bytes(n)
            return
        k = t[0]
        if k == 'i':
            n = self.mod.size(t)
            o.data[off:off + n] = v.to_bytes(n, 'little')
        elif k == 'f':
            o.data[off:off + t[1] // 8] = T.fbits(v, t[1]).to_bytes(t[1] // 8, 'little')
        elif k == 'ptr':
            o.data[off:off + 8] = v.to_bytes(8, 'little')
        else:
            n = len(t[1]) if k == 'st' else t[1]
            if k == 'arr' and t[2] == ('i', 8) and isinstance(v, tuple) and all(e.__class__ is int for e in v):
                o.data[off:off + n] = bytes(v)
                return
            for i in range(n):
                fo, ft = self.mod.field(t, i)
                self.init_bytes(o, off + fo, ft, v[i])

    def func_addr(self, name):
        a = self.fn_addr.get(name)
        if a is None:
            a = (FN_OBJ << 32) + 16 * (len(self.fn_addr) + 1)
            self.fn_addr[name] = a
            self.addr_fn[a] = name
        return a

    # ------------------------------------------------------------ memory
    def where(self, addr, n, what):
        """object and offset of a checked access"""
        if addr.__class__ is not int:
            if addr is UNDEF:
                self.violation('uninitialised', 'address of a %s is undefined' % what)
            raise Unsupported('symbolic address %r' % (addr,))
        o = self.objs.get(addr >> 32)
        if o is not None and o.kind == 'extern':
            raise Unsupported('global of another library: ' + o.name)
        if o is None or not o.alive:
            self.violation('invalid-' + what, 'access through %s (address %#x, %d bytes)' %
                           ('a dangling or null pointer' if o is None else 'a pointer to freed ' + o.name, addr, n))
        off = addr - o.base
        if off < 0 or off + n > o.size:
            self.violation('out-of-bounds-' + what, '%d bytes at offset %d of %s (%d bytes)' % (n, off, o.name, o.size))
        return o, off

    def violation(self, kind, msg):
        """reached under the current path condition: real if that is satisfiable"""
        model = {}
        if self.pc:
            model = self.check(self.pc)
            if model is None:
                raise Infeasible()
        v = Violation(kind, msg, model)
        v.pc = list(self.pc)
        raise v

    def check(self, conds):
        self.stats['queries'] += 1
        return self.solver(conds)

    def load_bytes_int(self, addr, n, al):
        """integer of n bytes at a concrete or symbolic address"""
        if addr.__class__ is not int:
            if addr is UNDEF:
                self.violation('uninitialised', 'address of a load is undefined')
            return self.sym_load(addr, n, al, False)
        o = self.objs.get(addr >> 32)
        if o is None or not o.alive:
            self.where(addr, n, 'read')
        off = addr - o.base
        if off < 0 or off + n > o.size:
            self.where(addr, n, 'read')
        if al > 1 and addr % al:
            self.violation('misaligned-read', 'address %#x of %s with alignment %d' % (addr, o.name, al))
        if self.log is not None:
            self.log_read(o.id, off, n)
        if o.sym:
            s = o.sym
            for i in range(off, off + n):
                if i in s:
                    return self.assemble(o, off, n)
        if 0 in o.ini[off:off + n]:
            return UNDEF
        return int.from_bytes(o.data[off:off + n], 'little')

    def assemble(self, o, off, n):
        s = o.sym
        c = s.get(off)
        if c is not None and c[1] == n and c[2] == 0:
            v = c[0]
            for i in range(1, n):
                e = s.get(off + i)
                if e is None or e[0] is not v or e[2] != i:
                    break
            else:
                if v.__class__ is F:
                    return T.fbits(v, v.fmt)
                return v
        r = 0
        i = 0
        while i < n:
            c = s.get(off + i)
            if c is None:
                if not o.ini[off + i]:
                    return UNDEF
                j = i
                r = T.ladd(r, o.data[off + i] << (8 * i))
                i += 1
                continue
            v, size, idx = c
            j = i + 1
            while j < n:
                e = s.get(off + j)
                if e is None or e[0] is not v or e[2] != idx + (j - i):
                    break
                j += 1
            k = j - i
            w = T.fbits(v, v.fmt) if v.__class__ is F else v
            if w.__class__ is B:
                w = T.b2i(w)
            w = T.U(w, 8 * size)
            if idx:
                w = T.fdiv(w, 1 << (8 * idx))
            if idx + k < size:
                w = T.fmod(w, 1 << (8 * k))
            r = T.ladd(r, T.lmulc(w, 1 << (8 * i)))
            i = j
        return T.canon(r, 8 * n)

    def load_f(self, addr, fmt, al):
        n = fmt // 8
        if addr.__class__ is int:
            o = self.objs.get(addr >> 32)
            if o is not None:
                c = o.sym.get(addr - o.base)
                if c is not None and c[0].__class__ is F and c[1] == n and c[2] == 0:
                    v = self.load_bytes_int(addr, n, al)   # performs the checks
                    return T.frombits(v, fmt)
        v = self.load_bytes_int(addr, n, al)
        if v is UNDEF:
            return v
        return T.frombits(v, fmt)

    def store_int(self, addr, v, n, al):
        if addr.__class__ is not int:
            return self.sym_store(addr, v, n, al)
        o = self.objs.get(addr >> 32)
        if o is None or not o.alive:
            self.where(addr, n, 'write')
        off = addr - o.base
        if off < 0 or off + n > o.size:
            self.where(addr, n, 'write')
        if o.ro:
            self.violation('write-to-readonly', '%d bytes at offset %d of %s' % (n, off, o.name))
        if al > 1 and addr % al:
            self.violation('misaligned-write', 'address %#x of %s with alignment %d' % (addr, o.name, al))
        if self.log is not None:
            self.log_write(o.id, off, n)
        if self.journal is not None:
            self.save(o, off, n)
        s = o.sym
        if v.__class__ is int:
            if s:
                for i in range(off, off + n):
                    s.pop(i, None)
            o.data[off:off + n] = v.to_bytes(n, 'little')
            o.ini[off:off + n] = b'\1' * n
        elif v is UNDEF:
            for i in range(off, off + n):
                s.pop(i, None)
            o.ini[off:off + n] = bytes(n)
        else:
            if v.__class__ is B:
                v = T.b2i(v)
            elif v.__class__ is Lin:
                v2 = T.U(v, 8 * n)
                if v2.__class__ is int:
                    return self.store_int(addr, v2, n, al)
                # keep the signed form when it is the simpler one
                if len(v2.t) == 1 and v2.t[0][0].kind == 'mod':
                    v3 = T.S(v, 8 * n)
                    if len(v3.t) == 1 and v3.t[0][0].kind == 'mod':
                        v3 = v2
                    v = v3
                else:
                    v = v2
                st = T.single(v)
                if st is not None and st.kind == 'fbits' and st.args[0].fmt == 8 * n:
                    v = st.args[0]
            for i in range(n):
                s[off + i] = (v, n, i)
            o.ini[off:off + n] = b'\1' * n

    def store_f(self, addr, v, fmt, al):
        if v.__class__ is float:
            v = T.fbits(v, fmt)
        elif v.__class__ is F and v.kind == 'frombits':
            v = v.args[0]
        self.store_int(addr, v, fmt // 8, al)

    def sym_range(self, addr, n, what):
        """object, base offset list of a symbolic address; checks bounds with the solver"""
        l, h = addr.lo, addr.hi
        oid = None
        for cand in {l >> 32, h >> 32, addr.c >> 32}:
            if cand in self.objs and cand not in (0, FN_OBJ):
                oid = cand
                break
        # the base pointer is the constant part
        o = self.objs.get(addr.c >> 32) or self.objs.get(oid)
        if o is None or not o.alive:
            self.violation('invalid-' + what, 'symbolic address without an object: %r' % (addr,))
        L, H = o.base, o.base + o.size - n
        if l < L:
            self.require(T.le0(T.lsub(L, addr)), 'out-of-bounds-' + what,
                         'below %s (%d bytes) at %r' % (o.name, o.size, addr))
            l = L
        if h > H:
            self.require(T.le0(T.lsub(addr, H)), 'out-of-bounds-' + what,
                         'beyond %s (%d bytes) at %r' % (o.name, o.size, addr))
            h = H
        g = 0
        import math
        for a, k in addr.t:
            g = math.gcd(g, k)
        first = l + (addr.c - l) % g
        return o, list(range(first, h + 1, g))

    def require(self, b, kind, msg):
        """b must hold on this path"""
        if b.__class__ is int:
            if b:
                return
            self.violation(kind, msg)
        m = self.check(self.pc + [T.bnot(b)])
        if m is not None:
            v = Violation(kind, msg, m)
            v.pc = self.pc + [T.bnot(b)]
            raise v

    def sym_load(self, addr, n, al, flt):
        s = T.single(addr)
        o1 = T.one_atom(addr)
        if addr is UNDEF:
            self.violation('uninitialised', 'address of a load is undefined')
        if o1 and o1[2].kind == 'ite' and o1[2].args[1].__class__ is int and o1[2].args[2].__class__ is int:
            c, p, q = o1[2].args
            a = self.load_bytes_int(o1[0] + o1[1] * p, n, al)
            b = self.load_bytes_int(o1[0] + o1[1] * q, n, al)
            return T.select_int(c, a, b, 8 * n)
        o, addrs = self.sym_range(addr, n, 'read')
        if len(addrs) > 1 << 17:
            raise Unsupported('symbolic load over %d addresses' % len(addrs))
        if al > 1:
            for a in addrs[:2]:
                if a % al:
                    self.violation('misaligned-read', 'symbolic address in ' + o.name)
        lg, self.log = self.log, None
        vals = [self.load_bytes_int(a, n, 1) for a in addrs]
        self.log = lg
        if lg is not None:
            self.log_read(o.id, addrs[0] - o.base, addrs[-1] + n - addrs[0])
        g = addrs[1] - addrs[0] if len(addrs) > 1 else 1
        idx = T.fdiv(T.ladd(addr, -addrs[0]), g)
        if all(v.__class__ is int for v in vals):
            if all(v == vals[0] for v in vals):
                return vals[0]
            return T.tab(vals, idx)
        if len(vals) > 64:
            raise Unsupported('symbolic load from symbolic memory')
        r = vals[-1]
        for i in range(len(vals) - 2, -1, -1):
            r = T.select_int(T.eq0(T.ladd(idx, -i)), vals[i], r, 8 * n)
        return r

    def sym_store(self, addr, v, n, al):
        if addr is UNDEF:
            self.violation('uninitialised', 'address of a store is undefined')
        o, addrs = self.sym_range(addr, n, 'write')
        if len(addrs) > 64:
            raise Unsupported('symbolic store over %d addresses' % len(addrs))
        for a in addrs:
            old = self.load_bytes_int(a, n, 1)
            self.store_int(a, T.select_int(T.eq0(T.ladd(addr, -a)), v, old, 8 * n), n, al)

    def memcpy(self, d, s, n):
        if n.__class__ is not int:
            raise Unsupported('memcpy of symbolic length')
        if n == 0:
            return
        so, soff = self.where(s, n, 'read')
        do, doff = self.where(d, n, 'write')
        if do.ro:
            self.violation('write-to-readonly', 'memcpy into ' + do.name)
        if self.log is not None:
            self.log_read(so.id, soff, n)
            self.log_write(do.id, doff, n)
        if self.journal is not None:
            self.save(do, doff, n)
        data = bytes(so.data[soff:soff + n])
        ini = bytes(so.ini[soff:soff + n])
        if so.sym:
            cells = {i: so.sym[soff + i] for i in range(n) if soff + i in so.sym} if n < 2 * len(so.sym) else \
                {k - soff: v for k, v in so.sym.items() if soff <= k < soff + n}
        else:
            cells = {}
        if do.sym:
            for i in range(doff, doff + n):
                do.sym.pop(i, None)
        do.data[doff:doff + n] = data
        do.ini[doff:doff + n] = ini
        for i, c in cells.items():
            do.sym[doff + i] = c

    def memset(self, d, v, n):
        if n.__class__ is not int:
            raise Unsupported('memset of symbolic length')
        if n == 0:
            return
        do, doff = self.where(d, n, 'write')
        if do.ro:
            self.violation('write-to-readonly', 'memset of ' + do.name)
        if self.log is not None:
            self.log_write(do.id, doff, n)
        if self.journal is not None:
            self.save(do, doff, n)
        if do.sym:
            for i in range(doff, doff + n):
                do.sym.pop(i, None)
        if v.__class__ is int:
            do.data[doff:doff + n] = bytes([v]) * n
            do.ini[doff:doff + n] = b'\1' * n
        elif v is UNDEF:
            do.ini[doff:doff + n] = bytes(n)
        else:
            for i in range(n):
                do.sym[doff + i] = (v, 1, 0)
            do.ini[doff:doff + n] = b'\1' * n

    def alloca(self, size, al, name):
        i = self.next_id
        self.next_id += 1
        o = Obj(i, (i << 32) + (al if al >= 16 else 16 + al), size, name, 'stack', False)
        self.objs[i] = o
        self.frames[-1].append(o)
        return o.base

    def check_read(self, addr, n, al):
        o = self.objs.get(addr >> 32)
        if o is None or not o.alive or addr < o.base or addr + n > o.base + o.size:
            self.where(addr, n, 'read')
        if al > 1 and addr % al:
            self.violation('misaligned-read', 'address %#x of %s with alignment %d' % (addr, o.name, al))

    def check_write(self, addr, n, al):
        o = self.objs.get(addr >> 32)
        if o is None or not o.alive or addr < o.base or addr + n > o.base + o.size:
            self.where(addr, n, 'write')
        if al > 1 and addr % al:
            self.violation('misaligned-write', 'address %#x of %s with alignment %d' % (addr, o.name, al))

    def sym_vload(self, addr, f, n, cnt, al, ety):
        if addr is UNDEF:
            self.violation('uninitialised', 'address of a load is undefined')
        o, addrs = self.sym_range(addr, n * cnt, 'read')
        if len(addrs) > 64:
            raise Unsupported('symbolic vector load over %d addresses' % len(addrs))
        if al > 1:
            for a in addrs[:2]:
                if a % al:
                    self.violation('misaligned-read', 'symbolic address in ' + o.name)
        r = None
        for a in reversed(addrs):
            v = tuple(f(a + n * i, 1) for i in range(cnt))
            if r is None:
                r = v
            else:
                c = T.eq0(T.ladd(addr, -a))
                r = tuple(merge_val(c, x, y, ety) for x, y in zip(v, r))
        return r

    def atomic(self, f, *a):
        """an atomic access: never part of a data race"""
        lg, self.log = self.log, None
        try:
            return f(*a)
        finally:
            self.log = lg

    def thread_local(self, a):
        """the address of a variable of this thread; a parallel item may be run by a thread of its own, or not"""
        if self.par_stack:
            p = self.par_stack[-1]
            p['locks'] = True
            o = self.objs[a >> 32]
            k = (o.id, p['cur'])
            if self.schedule == 'fwd' and k not in p['tls']:
                p['tls'].add(k)
                if (o.id, None) not in p['tls']:
                    p['tls'].add((o.id, None))
                    p['tls_saved'].append((o, bytes(o.data), bytes(o.ini), dict(o.sym)))
                self.fresh(o)
        return a

    @staticmethod
    def fresh(o):
        o.data[:] = o.init
        o.ini[:] = o.ini0
        o.sym.clear()

    def pick(self, c, x, y, w):
        return T.select_int(T.icmp(c, x, y, w), x, y, w)

    def cmpxchg(self, p, a, b, n):
        if self.par_stack:
            self.par_stack[-1]['locks'] = True
        return self.atomic(self.cmpxchg_, p, a, b, n)

    def cmpxchg_(self, p, a, b, n):
        x = self.load_bytes_int(p, n, 1)
        c = T.icmp('eq', x, a, 8 * n)
        self.store_int(p, T.select_int(c, b, x, 8 * n), n, 1)
        return (x, c)

    def sswitch(self, x, table, dflt, w):
        if x is UNDEF:
            self.violation('uninitialised', 'switch on an undefined value')
        for v, n in table.items():
            if self.decide(T.icmp('eq', x, v, w)):
                return n
        return dflt

    def over_budget(self):
        raise Budget('more than %d instructions executed' % self.max_steps)

    # ------------------------------------------------------------ journal for merging
    def save(self, o, off, n):
        j = self.journal
        for i in range(off, off + n):
            k = (o.id, i)
            if k not in j:
                j[k] = (o.data[i], o.ini[i], o.sym.get(i))

    def snapshot_cells(self, keys):
        out = {}
        for k in keys:
            o = self.objs.get(k[0])
            if o is None:
                continue
            i = k[1]
            out[k] = (o.data[i], o.ini[i], o.sym.get(i))
        return out

    def restore_cells(self, cells):
        for (oid, i), (d, n, s) in cells.items():
            o = self.objs.get(oid)
            if o is None:
                continue
            o.data[i] = d
            o.ini[i] = n
            if s is None:
                o.sym.pop(i, None)
            else:
                o.sym[i] = s

    def merge_cells(self, c, tc, fc):
        """tc/fc: cell contents after the two sides, same keys"""
        keys = sorted(tc)
        done = set()
        for k in keys:
            if k in done:
                continue
            a, b = tc[k], fc[k]
            oid, i = k
            o = self.objs[oid]
            if a == b or (a[2] is not None and b[2] is not None and a[2][0] is b[2][0] and a[2][1:] == b[2][1:]):
                self.restore_cells({k: a})
                continue
            # widest chunk both sides agree on
            n = 1
            for cell in (a[2], b[2]):
                if cell is not None and cell[2] == 0:
                    n = max(n, cell[1])
            if n > 1:
                ok = True
                for x in (tc, fc):
                    for q in range(n):
                        e = x.get((oid, i + q))
                        if e is None or (e[2] is not None and (e[2][1] != n or e[2][2] != q)):
                            ok = False
                if not ok:
                    n = 1
            va = self.cell_val(tc, oid, i, n)
            vb = self.cell_val(fc, oid, i, n)
            for q in range(n):
                done.add((oid, i + q))
            if va is UNDEF or vb is UNDEF:
                # may be uninitialised: keep it so
                for q in range(n):
                    o.ini[i + q] = 0
                    o.sym.pop(i + q, None)
                continue
            if va.__class__ is F or vb.__class__ is F:
                if va.__class__ is not F and va.__class__ is not float:
                    va = T.frombits(va, 8 * n)
                if vb.__class__ is not F and vb.__class__ is not float:
                    vb = T.frombits(vb, 8 * n)
                v = T.fsel(c, va, vb, 8 * n)
                if v.__class__ is float:
                    v = T.fbits(v, 8 * n)
            else:
                v = T.select_int(c, va, vb, 8 * n)
            j = self.journal
            self.journal = None
            lg, self.log = self.log, None
            ro, o.ro = o.ro, False
            self.store_int(o.base + i, v, n, 1)
            o.ro = ro
            self.log = lg
            self.journal = j

    def cell_val(self, cells, oid, i, n):
        e = cells[(oid, i)]
        if e[2] is not None and e[2][2] == 0 and e[2][1] == n:
            return e[2][0]
        r = 0
        for q in range(n):
            d, ini, s = cells[(oid, i + q)]
            if s is None:
                if not ini:
                    return UNDEF
                r = T.ladd(r, d << (8 * q))
            else:
                v, size, idx = s
                w = T.fbits(v, v.fmt) if v.__class__ is F else v
                w = T.U(w, 8 * size)
                w = T.fmod(T.fdiv(w, 1 << (8 * idx)), 256)
                r = T.ladd(r, T.lmulc(w, 1 << (8 * q)))
        return T.canon(r, 8 * n)

    # ------------------------------------------------------------ footprints
    def log_read(self, oid, off, n):
        self.log[0].append((oid, off, off + n))

    def log_write(self, oid, off, n):
        self.log[1].append((oid, off, off + n))

    # ------------------------------------------------------------ calls
    def call(self, name, args):
        f = self.code.get(name)
        if f is None:
            f = self.code[name] = self.link(name)
        return f(args)

    def link(self, name):
        h = self.native(name)
        if h is not None:
            return h
        if name in self.mod.funcs:
            from .compile import compile_func
            fn = self.mod.func(name)
            cf = compile_func(self, fn)
            need = fn.features - BASE_FEATURES
            if need:
                return self.guarded(name, cf, need)
            return cf
        h = self.external(name)
        if h is not None:
            return h

        def unknown(args):
            raise Unsupported('call of external function ' + name)
        return unknown

    def guarded(self, name, cf, need):
        def call(args):
            if self.cpu_features is not None and not need <= self.cpu_features:
                raise Violation('cpu feature', 'code compiled for %s runs on a CPU without %s' % (
                    name, ','.join(sorted(need - self.cpu_features))))
            return cf(args)
        return call

    def call_ptr(self, addr, args):
        if addr.__class__ is not int:
            o1 = T.one_atom(addr) if addr.__class__ is Lin else None
            if o1 and o1[2].kind == 'ite':
                return self.fork_value(addr, lambda a: self.call_ptr(a, args))
            raise Unsupported('symbolic function pointer')
        n = self.addr_fn.get(addr)
        if n is None:
            self.violation('invalid-call', 'call through a bad function pointer %#x' % addr)
        return self.call(n, args)

    def call_rc(self, name, args):
        """call an entry of the harness: 0, or the error it returns (-1 if that depends on the input)"""
        rc = self.call(name, args)
        if rc.__class__ is int:
            return rc
        hook, self.on_decide = self.on_decide, None
        try:
            return 0 if self.decide(T.eq0(rc)) else -1
        finally:
            self.on_decide = hook

    def fork_value(self, v, k):
        c, p, q = T.const_ite(v)
        return k(p if self.decide(c) else q)

    def native(self, name):
        """functions replaced by environment models"""
        from .models import MODELS
        if name in MODELS:
            return lambda args: MODELS[name](self, args)
        if name.startswith('llvm.'):
            from .intrinsics import intrinsic
            h = intrinsic(self, name)
            if h is None:
                raise Unsupported('intrinsic ' + name)
            return h
        return None

    def external(self, name):
        from .models import external_model
        return external_model(self, name)

    def avail_result(self, args):
        if self.avail is None:
            return (1, 3)
        return (0, self.avail)

    def panic(self, name):
        self.violation('panic', name)

    # ------------------------------------------------------------ symbolic control flow
    def decide(self, c):
        """fork on a symbolic condition; returns the branch taken on this path"""
        if c.__class__ is int:
            return c
        if c is UNDEF:
            self.violation('uninitialised', 'branch on an undefined value')
        if self.merge_depth:
            raise NoMerge('fork')
        if self.on_decide is not None:
            self.on_decide(self)
        if self.dpos < len(self.decisions):
            d = self.decisions[self.dpos]
            self.dpos += 1
            self.pc.append(c if d else T.bnot(c))
            return d
        t = self.check(self.pc + [c]) is not None
        f = self.check(self.pc + [T.bnot(c)]) is not None
        if t and f:
            self.stats['forks'] += 1
            self.pending.append(self.decisions[:self.dpos] + [0])
            d = 1
        elif t:
            d = 1
        elif f:
            d = 0
        else:
            raise Infeasible()
        self.decisions.append(d)
        self.dpos += 1
        self.pc.append(c if d else T.bnot(c))
        return d

    def sbranch(self, cf, r, c, b, bt, bf):
        """branch of block b on symbolic c to bt / bf; returns the next block"""
        if c is UNDEF:
            self.violation('uninitialised', 'branch on an undefined value')
        # a side that only panics: an assertion
        for side, cond, other in ((bt, c, bf), (bf, T.bnot(c), bt)):
            if side in cf.noreturn:
                self.require(T.bnot(cond), 'panic', cf.noreturn[side])
                cf.edge(self, r, b, other)
                return other
        j = cf.ipdom(b)
        if j is None and cf.has_ipdom_exit(b):
            j = -1
        if j is not None and cf.region_small(b, j):
            try:
                return self.merge_branch(cf, r, c, b, bt, bf, j)
            except NoMerge:
                pass
        d = self.decide(c)
        n = bt if d else bf
        cf.edge(self, r, b, n)
        return n

    def merge_branch(self, cf, r, c, b, bt, bf, j):
        outer = self.journal
        regs = list(r)
        npc = len(self.pc)
        res = []
        jr_all = {}
        self.merge_depth += 1
        steps0 = self.steps
        try:
            for cond, start in ((c, bt), (T.bnot(c), bf)):
                self.journal = {}
                self.pc.append(cond)
                ok = True
                out = None
                try:
                    cf.edge(self, r, b, start)
                    out = cf.run_until(self, r, b, start, j)
                except Infeasible:
                    ok = False
                except NoMerge:
                    self.restore_cells(self.journal)
                    raise
                del self.pc[npc:]
                jr = self.journal
                after = self.snapshot_cells(jr)
                self.restore_cells(jr)
                phis = [r[s] for s, _ in cf.phi_slots(j)] if j >= 0 else None
                res.append((ok, out, after, jr, phis, r[:] if ok else None))
                r[:] = regs
        except NoMerge:
            r[:] = regs
            raise
        except Unsupported:
            # what cannot be encoded on one side is left to a fork
            self.restore_cells(self.journal)
            r[:] = regs
            raise NoMerge('unsupported')
        finally:
            del self.pc[npc:]
            self.journal = outer
            self.merge_depth -= 1
        self.stats['merges'] += 1
        a, bb = res
        if not a[0] and not bb[0]:
            raise Infeasible()
        keys = set(a[3]) | set(bb[3])
        keys = {k for k in keys if k[0] in self.objs}
        if outer is not None:
            for k in keys:
                if k not in outer:
                    o = self.objs[k[0]]
                    outer[k] = (o.data[k[1]], o.ini[k[1]], o.sym.get(k[1]))
        if not a[0] or not bb[0]:
            x = a if a[0] else bb
            self.restore_cells(x[2])
            r[:] = x[5]
            if j < 0:
                r[0] = x[1]
                return -1
            return j
        base = self.snapshot_cells(keys)
        tc = dict(base)
        tc.update((k, v) for k, v in a[2].items() if k in base)
        fc = dict(base)
        fc.update((k, v) for k, v in bb[2].items() if k in base)
        self.merge_cells(c, tc, fc)
        if j < 0:
            r[0] = merge_val(c, a[1], bb[1], cf.ret)
            return -1
        for (s, ty), x, y in zip(cf.phi_slots(j), a[4], bb[4]):
            r[s] = merge_val(c, x, y, ty)
        return j


def merge_val(c, a, b, ty):
    if a is b:
        return a
    if ty is None or ty == ('void',):
        return None
    k = ty[0]
    if k == 'i':
        return T.select_int(c, a, b, ty[1])
    if k == 'ptr':
        return T.select_int(c, a, b, 64)
    if k == 'f':
        return T.fsel(c, a, b, ty[1])
    if a is None or b is None:
        return UNDEF
    if k in ('vec', 'arr'):
        return tuple(merge_val(c, x, y, ty[2]) for x, y in zip(a, b))
    if k == 'st':
        return tuple(merge_val(c, x, y, t) for x, y, t in zip(a, b, ty[1]))
    raise Unsupported('merge of %r' % (ty,))


CACHE = None  # set by models
