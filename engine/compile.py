"""Compiles one IR function to Python code, block by block."""
from .irparse import UNDEF, zero_of, undef_of
from . import terms as T
from . import ops as O
from .terms import Unsupported


class CFunc:
    """compiled function; blocks are functions (m, r) -> index of the next block, -1 on return"""

    def __init__(self, m, fn):
        self.m = m
        self.fn = fn
        self.name = fn.name
        self.ret = fn.ret
        self._ipdom = None
        self._small = {}
        build(self, m, fn)

    def __call__(self, args):
        m = self.m
        r = [None] * self.nregs
        r[1:1 + len(args)] = args
        m.frames.append([])
        m.covered.add(self.name)
        try:
            n = self.run_until(m, r, None, 0, -2)
            while n != -1:
                n = self.run_until(m, r, None, n, -2)
            return r[0]
        finally:
            for o in m.frames.pop():
                o.alive = False
                m.objs.pop(o.id, None)

    def run_until(self, m, r, b, n, j):
        """from block n until block j (or the return, -1); returns j, or the returned value for j = -1"""
        code = self.code
        w = self.weight
        while n != j:
            if n == -1:
                if j == -1:
                    return r[0]
                return -1
            m.steps += w[n]
            if m.steps > m.max_steps:
                m.over_budget()
            n = code[n](m, r)
        return r[0] if n == -1 else n

    def edge(self, m, r, b, n):
        e = self.edges.get((b, n))
        if e is not None:
            e(r)

    # ---- control flow graph
    def analyse(self):
        n = len(self.succ)
        # blocks that can reach a return
        pred = [[] for _ in range(n + 1)]
        for b, ss in enumerate(self.succ):
            for s in ss:
                pred[s].append(b)
        for b in self.rets:
            pred[n].append(b)
        reach = {n}
        st = [n]
        while st:
            x = st.pop()
            for p in pred[x]:
                if p not in reach:
                    reach.add(p)
                    st.append(p)
        self.reach = reach
        # reverse post order on the reversed graph from the virtual exit
        order = []
        seen = {n}
        stack = [(n, iter(pred[n]))]
        while stack:
            x, it = stack[-1]
            for p in it:
                if p not in seen:
                    seen.add(p)
                    stack.append((p, iter(pred[p])))
                    break
            else:
                order.append(x)
                stack.pop()
        order.reverse()
        num = {b: i for i, b in enumerate(order)}
        idom = {n: n}
        changed = True
        while changed:
            changed = False
            for b in order[1:]:
                new = None
                ss = [s for s in self.succ[b] if s in reach] + ([n] if b in self.retset else [])
                for s in ss:
                    if s in idom:
                        if new is None:
                            new = s
                        else:
                            x, y = new, s
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    changed = True
        self._ipdom = idom
        self.exit = n

    def ipdom(self, b):
        if self._ipdom is None:
            self.analyse()
        j = self._ipdom.get(b)
        return None if j is None or j == self.exit else j

    def has_ipdom_exit(self, b):
        if self._ipdom is None:
            self.analyse()
        return self._ipdom.get(b) == self.exit

    def region_small(self, b, j):
        k = (b, j)
        v = self._small.get(k)
        if v is None:
            v = self._small[k] = self._region(b, j)
        return v

    def _region(self, b, j):
        seen = set()
        st = [s for s in self.succ[b]]
        while st:
            x = st.pop()
            if x == j or x in seen or x not in self.reach:
                continue
            if x == b:
                return False
            seen.add(x)
            if len(seen) > 60:
                return False
            st += self.succ[x]
        return True

    def phi_slots(self, j):
        return self.phis[j]


def compile_func(m, fn):
    return CFunc(m, fn)


def vty(t):
    return t[0] == 'vec'


class Gen:
    def __init__(self, m, fn):
        self.m = m
        self.fn = fn
        self.K = []
        self.kidx = {}

    def const(self, v):
        if v.__class__ is int and -(1 << 70) < v < (1 << 70):
            return repr(v) if v >= 0 else '(%r)' % v
        if v is UNDEF:
            return 'UNDEF'
        self.K.append(v)
        return 'K[%d]' % (len(self.K) - 1)


def value_of(m, fn, v, ty=None):
    """python value of a constant operand"""
    if v[0] == 'c':
        return v[1]
    if v[0] == 'g':
        return (m.global_addr(v[1], fn.file) + v[2]) & 0xFFFFFFFFFFFFFFFF
    if v[0] == 'agg':
        return tuple(value_of(m, fn, e) for e in v[2])
    raise Unsupported('constant %r' % (v,))


def scalar_loader(m, t):
    k = t[0]
    if k == 'i':
        w = t[1]
        n = (w + 7) // 8
        if w == 1:
            return lambda a, al: T.i2b(m.load_bytes_int(a, 1, al)), 1
        if w % 8:
            return lambda a, al: O.trunc(m.load_bytes_int(a, n, al), 8 * n, w), n
        return lambda a, al: m.load_bytes_int(a, n, al), n
    if k == 'ptr':
        return lambda a, al: m.load_bytes_int(a, 8, al), 8
    if k == 'f':
        return lambda a, al: m.load_f(a, t[1], al), t[1] // 8
    raise Unsupported('load of %r' % (t,))


def loader(m, t):
    k = t[0]
    if k in ('i', 'ptr', 'f'):
        return scalar_loader(m, t)[0]
    if k == 'vec':
        f, n = scalar_loader(m, t[2])
        cnt = t[1]
        tot = n * cnt

        def vec(a, al):
            if a.__class__ is not int:
                return m.sym_vload(a, f, n, cnt, al, t[2])
            m.check_read(a, tot, al)
            return tuple([f(a + n * i, 1) for i in range(cnt)])
        return vec
    if k in ('arr', 'st'):
        cnt = len(t[1]) if k == 'st' else t[1]
        parts = []
        for i in range(cnt):
            off, ft = m.mod.field(t, i)
            parts.append((off, loader(m, ft), m.mod.align(ft)))
        pk = k == 'st' and t[2]
        return lambda a, al: tuple([f(O.gepadd(a, o, 1, 64), 1) for o, f, x in parts])
    raise Unsupported('load of %r' % (t,))


def storer(m, t):
    k = t[0]
    if k == 'i':
        w = t[1]
        n = (w + 7) // 8
        if w == 1:
            return lambda a, v, al: m.store_int(a, T.b2i(v), 1, al)
        if w % 8:
            return lambda a, v, al: m.store_int(a, T.canon(T.U(v, w), w) if v is not UNDEF else v, n, al)
        return lambda a, v, al: m.store_int(a, v, n, al)
    if k == 'ptr':
        return lambda a, v, al: m.store_int(a, v, 8, al)
    if k == 'f':
        return lambda a, v, al: m.store_f(a, v, t[1], al)
    if k in ('vec', 'arr', 'st'):
        cnt = len(t[1]) if k == 'st' else t[1]
        parts = []
        for i in range(cnt):
            if k == 'vec':
                e = t[2]
                off, ft = i * (8 if e[0] == 'ptr' else (e[1] + 7) // 8), e
            else:
                off, ft = m.mod.field(t, i)
            parts.append((off, storer(m, ft)))
        tot = m.mod.size(t)

        def st(a, v, al):
            if a.__class__ is int:
                m.check_write(a, tot, al)
            for (o, f), x in zip(parts, v):
                f(O.gepadd(a, o, 1, 64), x, 1)
        return st
    raise Unsupported('store of %r' % (t,))


def build(cf, m, fn):
    g = Gen(m, fn)
    K = g.K
    nb = len(fn.blocks)
    # registers: 0 return value, 1.. parameters, then one per result
    slot = {}
    for i, (nm, t, at) in enumerate(fn.params):
        slot[nm] = i + 1
    n = len(fn.params) + 1
    defblock = {nm: -1 for nm in slot}
    for bi, (lab, ins) in enumerate(fn.blocks):
        for it in ins:
            d = dest(it)
            if d is not None:
                slot[d] = n
                defblock[d] = bi
                n += 1
    cf.nregs = n
    # uses outside the defining block
    escapes = set(nm for nm in slot if defblock[nm] == -1)
    for bi, (lab, ins) in enumerate(fn.blocks):
        for it in ins:
            if it[0] == 'phi':
                escapes.add(it[1])
                for v, l in it[3]:
                    if v[0] == 'r':
                        escapes.add(v[1])
            else:
                for u in uses(it):
                    if defblock[u] != bi:
                        escapes.add(u)
    cf.succ = []
    cf.rets = []
    cf.noreturn = {}
    cf.phis = {}
    cf.weight = []
    labels = fn.labels
    for bi, (lab, ins) in enumerate(fn.blocks):
        t = ins[-1]
        cf.weight.append(len(ins))
        if t[0] == 'br':
            s = [labels[t[1]]]
        elif t[0] == 'cbr':
            s = [labels[t[2]], labels[t[3]]]
        elif t[0] == 'switch':
            s = [labels[t[3]]] + [labels[l] for _, l in t[4]]
        else:
            s = []
        cf.succ.append(s)
        if t[0] == 'ret':
            cf.rets.append(bi)
        cf.phis[bi] = [(slot[i[1]], i[2]) for i in ins if i[0] == 'phi']
        if t[0] == 'unreachable':
            msg = 'unreachable code'
            for i in ins:
                if i[0] == 'call' and i[3][0] == 'g' and not i[3][1].startswith('llvm.'):
                    msg = i[3][1]
            cf.noreturn[bi] = '%s (called from %s)' % (demangle(msg), demangle(fn.name))
    cf.retset = set(cf.rets)
    cf.code = [None] * nb
    # phi moves per edge
    cf.edges = {}
    src = []
    moves_txt = {}

    def operand(v, local, ty=None):
        if v[0] == 'r':
            nm = v[1]
            if nm in local:
                return local[nm]
            return 'r[%d]' % slot[nm]
        x = value_of(m, fn, v)
        return g.const(x)

    for bi in range(nb):
        for s in set(cf.succ[bi]):
            lab = fn.blocks[bi][0]
            mv = []
            for it in fn.blocks[s][1]:
                if it[0] != 'phi':
                    break
                for v, l in it[3]:
                    if l == lab:
                        mv.append((slot[it[1]], v))
                        break
                else:
                    raise Unsupported('phi without the edge')
            moves_txt[(bi, s)] = mv
    for (b, s), mv in moves_txt.items():
        if mv:
            rhs = [operand(v, {}) for _, v in mv]
            src.append('def e_%d_%d(r):' % (b, s))
            src.append('    ' + ', '.join('r[%d]' % d for d, _ in mv) + ' = ' + ', '.join(rhs))

    for bi, (lab, ins) in enumerate(fn.blocks):
        body = []
        local = {}
        for it in ins:
            if it[0] == 'phi':
                continue
            emit(g, m, fn, cf, it, body, local, operand, slot, escapes, bi, labels, moves_txt)
        src.append('def b_%d(m, r):' % bi)
        src += ['    ' + x for x in body] or ['    pass']
    env = {'K': K, 'UNDEF': UNDEF, 'O': O, 'T': T, 'cf': cf, 'm0': m,
           'select': O.select, 'vselect': O.vselect, 'gepadd': O.gepadd}
    env.update({'o_' + k: v for k, v in O.BIN.items()})
    env['o_icmp'] = T.icmp
    env['o_vbin'] = O.vbin
    env['o_or_disjoint'] = O.or_disjoint
    exec(compile('\n'.join(src), '<%s>' % fn.name[-60:], 'exec'), env)
    for bi in range(nb):
        cf.code[bi] = env['b_%d' % bi]
    for (b, s), mv in moves_txt.items():
        if mv:
            cf.edges[(b, s)] = env['e_%d_%d' % (b, s)]


def dest(it):
    k = it[0]
    if k in ('bin', 'fneg', 'icmp', 'fcmp', 'cast', 'select', 'phi', 'load', 'alloca', 'gep', 'extractvalue',
             'insertvalue', 'extractelement', 'insertelement', 'shufflevector', 'freeze', 'atomicrmw', 'cmpxchg'):
        return it[1]
    if k in ('call', 'asm'):
        return it[1]
    return None


def uses(it):
    out = []

    def walk(x):
        if x.__class__ is tuple:
            if len(x) == 2 and x[0] == 'r' and x[1].__class__ is str:
                out.append(x[1])
            elif x and x[0] in ('c', 'g') and len(x) in (2, 3):
                return
            else:
                for e in x:
                    walk(e)
        elif x.__class__ is list:
            for e in x:
                walk(e)
    for x in it[1:]:
        walk(x)
    return out


def emit(g, m, fn, cf, it, body, local, operand, slot, escapes, bi, labels, moves_txt):
    k = it[0]

    def P(v):
        return operand(v, local)

    def setd(d, expr):
        s = slot[d]
        body.append('v%d = %s' % (s, expr))
        local[d] = 'v%d' % s
        if d in escapes:
            body.append('r[%d] = v%d' % (s, s))

    def kconst(v):
        g.K.append(v)
        return 'K[%d]' % (len(g.K) - 1)

    if k == 'bin':
        _, d, op, ty, a, b, flags = it
        if op == 'or' and 'disjoint' in flags:
            op = 'or_disjoint'
        A, Bb = P(a), P(b)
        if ty[0] == 'vec':
            setd(d, 'o_vbin(o_%s, %s, %s, %d)' % (op, A, Bb, ty[2][1]))
        elif ty[0] == 'f':
            setd(d, 'o_%s(%s, %s, %d)' % (op, A, Bb, ty[1]))
        else:
            w = ty[1]
            M = (1 << w) - 1
            py = {'add': '(%s + %s) & %d', 'sub': '(%s - %s) & %d', 'mul': '(%s * %s) & %d',
                  'and': '%s & %s', 'or': '%s | %s', 'xor': '%s ^ %s', 'or_disjoint': '%s | %s'}.get(op)
            if py and a[0] == 'r' or py and b[0] == 'r':
                fast = py % ((A, Bb, M) if '%d' in py else (A, Bb))
                cond = ' and '.join('%s.__class__ is int' % x for x, v in ((A, a), (Bb, b)) if v[0] == 'r')
                setd(d, '%s if %s else o_%s(%s, %s, %d)' % (fast, cond, op, A, Bb, w))
            else:
                setd(d, 'o_%s(%s, %s, %d)' % (op, A, Bb, w))
    elif k == 'fneg':
        _, d, ty, a = it[:4]
        if ty[0] == 'vec':
            setd(d, 'tuple([T.fneg(x, %d) for x in %s])' % (ty[2][1], P(a)))
        else:
            setd(d, 'T.fneg(%s, %d)' % (P(a), ty[1]))
    elif k == 'icmp':
        _, d, pred, ty, a, b = it[:6]
        if ty[0] == 'vec':
            w = O.ewidth(ty[2])
            setd(d, 'tuple([o_icmp(%r, x, y, %d) for x, y in zip(%s, %s)])' % (pred, w, P(a), P(b)))
        else:
            w = O.ewidth(ty)
            A, Bb = P(a), P(b)
            py = {'eq': '==', 'ne': '!=', 'ult': '<', 'ule': '<=', 'ugt': '>', 'uge': '>='}.get(pred)
            if py and (a[0] == 'r' or b[0] == 'r'):
                cond = ' and '.join('%s.__class__ is int' % x for x, v in ((A, a), (Bb, b)) if v[0] == 'r')
                setd(d, '(1 if %s %s %s else 0) if %s else o_icmp(%r, %s, %s, %d)' % (A, py, Bb, cond, pred, A, Bb, w))
            else:
                setd(d, 'o_icmp(%r, %s, %s, %d)' % (pred, A, Bb, w))
    elif k == 'fcmp':
        _, d, pred, ty, a, b = it[:6]
        if ty[0] == 'vec':
            setd(d, 'tuple([T.fcmp(%r, x, y) for x, y in zip(%s, %s)])' % (pred, P(a), P(b)))
        else:
            setd(d, 'T.fcmp(%r, %s, %s)' % (pred, P(a), P(b)))
    elif k == 'cast':
        _, d, op, ty, a, ty2 = it[:6]
        A = P(a)
        if ty[0] == 'i' and ty2[0] == 'i' and op in ('trunc', 'zext'):
            if op == 'zext':
                setd(d, '%s if %s.__class__ is int else O.zext(%s, %d, %d)' % (A, A, A, ty[1], ty2[1]))
            else:
                setd(d, '%s & %d if %s.__class__ is int else O.trunc(%s, %d, %d)' % (A, (1 << ty2[1]) - 1, A, A, ty[1], ty2[1]))
        else:
            setd(d, '%s(%s)' % (kconst(O.cast(op, ty, ty2)), A))
    elif k == 'select':
        _, d, tc, c, ty, a, b = it[:7]
        if tc[0] == 'vec':
            setd(d, 'vselect(%s, %s, %s, %s)' % (P(c), P(a), P(b), kconst(ty)))
        else:
            C, A, Bb = P(c), P(a), P(b)
            setd(d, '(%s if %s else %s) if %s.__class__ is int else select(%s, %s, %s, %s)' %
                 (A, C, Bb, C, C, A, Bb, kconst(ty)))
    elif k == 'load':
        _, d, ty, p, al, at = it
        if at and ty[0] in ('i', 'ptr'):
            setd(d, 'm.atomic(m.load_bytes_int, %s, %d, %d)' % (P(p), 8 if ty[0] == 'ptr' else (ty[1] + 7) // 8, al))
        elif ty[0] == 'i' and ty[1] % 8 == 0:
            setd(d, 'm.load_bytes_int(%s, %d, %d)' % (P(p), ty[1] // 8, al))
        elif ty[0] == 'ptr':
            setd(d, 'm.load_bytes_int(%s, 8, %d)' % (P(p), al))
        else:
            setd(d, '%s(%s, %d)' % (kconst(loader(m, ty)), P(p), al))
    elif k == 'store':
        _, ty, v, p, al, at = it
        if at and ty[0] in ('i', 'ptr'):
            body.append('m.atomic(m.store_int, %s, %s, %d, %d)' % (P(p), P(v), 8 if ty[0] == 'ptr' else (ty[1] + 7) // 8, al))
        elif ty[0] == 'i' and ty[1] % 8 == 0:
            body.append('m.store_int(%s, %s, %d, %d)' % (P(p), P(v), ty[1] // 8, al))
        else:
            body.append('%s(%s, %s, %d)' % (kconst(storer(m, ty)), P(p), P(v), al))
    elif k == 'alloca':
        _, d, ty, n, al = it
        if n[0] != 'c':
            raise Unsupported('dynamic alloca')
        setd(d, 'm.alloca(%d, %d, %r)' % (m.mod.size(ty) * n[1], al, fn.name[-24:] + '%' + d))
    elif k == 'gep':
        _, d, ty, pty, p, idx = it
        if pty[0] == 'vec':
            raise Unsupported('vector gep')
        cur = P(p)
        off = 0
        dyn = []
        t = ty
        for q, (ity, iv) in enumerate(idx):
            if q == 0:
                sz = m.mod.size(t)
            elif t[0] == 'st':
                fo, t2 = m.mod.field(t, iv[1])
                off += fo
                t = t2
                continue
            elif t[0] in ('arr', 'vec'):
                t = t[2]
                sz = m.mod.size(t)
            else:
                raise Unsupported('gep into %r' % (t,))
            if iv[0] == 'c':
                off += O.sg(iv[1], ity[1]) * sz
            else:
                dyn.append((iv, sz, ity[1]))
        for iv, sz, w in dyn:
            cur = 'gepadd(%s, %s, %d, %d)' % (cur, P(iv), sz, w)
        if off or not dyn:
            cur = 'gepadd(%s, %d, 1, 64)' % (cur, off & 0xFFFFFFFFFFFFFFFF) if off else cur
        setd(d, cur)
    elif k == 'extractvalue':
        _, d, ty, v, path = it
        setd(d, 'O.extractvalue(%s, %r)' % (P(v), path))
    elif k == 'insertvalue':
        _, d, ty, v, e, path = it
        setd(d, 'O.insertvalue(%s, %s, %r)' % (P(v), P(e), path))
    elif k == 'extractelement':
        _, d, ty, v, ix = it
        if ix[0] == 'c':
            setd(d, '%s[%d]' % (P(v), ix[1]))
        else:
            setd(d, 'O.extractelement(%s, %s)' % (P(v), P(ix)))
    elif k == 'insertelement':
        _, d, ty, v, e, ix = it
        setd(d, 'O.insertelement(%s, %s, %s)' % (P(v), P(e), P(ix)))
    elif k == 'shufflevector':
        _, d, ty, a, b, mask = it
        n = ty[1]
        A, Bb = P(a), P(b)
        if any(x.__class__ is int and x >= n for x in mask):
            body.append('w_ = %s + %s' % (A, Bb))
        else:
            body.append('w_ = %s' % A)
        setd(d, '(' + ', '.join('w_[%d]' % x if x.__class__ is int else 'UNDEF' for x in mask) + ',)')
    elif k == 'freeze':
        _, d, ty, v = it[:4]
        setd(d, 'O.freeze(%s, %s)' % (P(v), kconst(ty)))
    elif k == 'nop':
        pass
    elif k == 'atomicrmw':
        _, d, op, ty, p, v = it
        w = 64 if ty[0] == 'ptr' else ty[1]
        body.append('x_ = m.atomic(m.load_bytes_int, %s, %d, 1)' % (P(p), w // 8))
        body.append('v_ = %s' % P(v))
        setd(d, 'x_')
        new = {'xchg': 'v_', 'add': 'O.add(x_, v_, %d)' % w, 'sub': 'O.sub(x_, v_, %d)' % w, 'or': 'O.or_(x_, v_, %d)' % w,
               'and': 'O.and_(x_, v_, %d)' % w, 'xor': 'O.xor_(x_, v_, %d)' % w, 'nand': 'O.xor_(O.and_(x_, v_, %d), %d, %d)' % (w, (1 << w) - 1, w)}.get(op)
        if new is None:
            # max, min, umax, umin
            new = 'm.pick(%r, x_, v_, %d)' % ({'max': 'sgt', 'min': 'slt', 'umax': 'ugt', 'umin': 'ult'}[op], w)
        body.append('m.atomic(m.store_int, %s, %s, %d, 1)' % (P(p), new, w // 8))
    elif k == 'cmpxchg':
        _, d, ty, p, a, b = it
        w = 64 if ty[0] == 'ptr' else ty[1]
        setd(d, 'm.cmpxchg(%s, %s, %s, %d)' % (P(p), P(a), P(b), w // 8))
    elif k == 'call':
        _, d, rt, callee, args = it
        av = '[' + ', '.join(P(v) for t, v in args) + ']'
        if callee[0] == 'g':
            nm = callee[1]
            if nm.startswith(('llvm.lifetime', 'llvm.experimental.noalias', 'llvm.dbg', 'llvm.prefetch')):
                return
            if nm == 'llvm.assume':
                return
            call = 'm.call(%r, %s)' % (nm, av)
        else:
            call = 'm.call_ptr(%s, %s)' % (P(callee), av)
        if d is None:
            body.append(call)
        else:
            setd(d, call)
    elif k == 'asm':
        body.append('raise T.Unsupported("inline asm: " + %r)' % (str(it[2])[:80],))
    elif k == 'unreachable':
        body.append('m.violation("panic", "reached unreachable code in " + %r)' % demangle(fn.name))
        body.append('return -1')
    elif k == 'ret':
        if it[2] is not None:
            body.append('r[0] = %s' % P(it[2]))
        body.append('return -1')
    elif k in ('br', 'cbr'):
        def go(s, ind):
            mv = moves_txt[(bi, s)]
            if mv:
                rhs = [P(v) for _, v in mv]
                body.append(ind + ', '.join('r[%d]' % d for d, _ in mv) + ' = ' + ', '.join(rhs))
            body.append(ind + 'return %d' % s)
        if k == 'br':
            go(labels[it[1]], '')
        else:
            t, f = labels[it[2]], labels[it[3]]
            C = P(it[1])
            body.append('if %s.__class__ is int:' % C)
            body.append('    if %s:' % C)
            go(t, '        ')
            go(f, '    ')
            body.append('return m.sbranch(cf, r, %s, %d, %d, %d)' % (C, bi, t, f))
    elif k == 'switch':
        _, ty, c, dflt, cases = it
        tabl = {}
        for v, l in cases:
            tabl[v] = labels[l]
        dl = labels[dflt]
        body.append('x_ = %s' % P(c))
        kt = kconst(tabl)
        body.append('if x_.__class__ is int:')
        body.append('    n_ = %s.get(x_, %d)' % (kt, dl))
        body.append('else:')
        body.append('    n_ = m.sswitch(x_, %s, %d, %d)' % (kt, dl, ty[1]))
        body.append('cf.edge(m, r, %d, n_)' % bi)
        body.append('return n_')
    else:
        raise Unsupported('instruction ' + k)


_dm = {}


def demangle(n):
    """short readable form of a v0-mangled name"""
    r = _dm.get(n)
    if r is None:
        import re
        if not n.startswith('_R'):
            r = n
        else:
            out = []
            i = 2
            for mm in re.finditer(r'(?:s[0-9a-zA-Z]*_)?(\d+)_?([A-Za-z_][A-Za-z0-9_]*)', n[2:]):
                k = int(mm.group(1))
                s = mm.group(2)[:k]
                if len(s) == k:
                    out.append(s)
            r = '::'.join(out) or n
        _dm[n] = r
    return r
