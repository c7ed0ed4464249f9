"""Environment models: allocator, panics, CPU detection, the rayon model's hooks."""
from . import machine as M
from . import terms as T
from .terms import Unsupported
from .irparse import UNDEF
from .compile import demangle

M.CACHE = None   # set by setup(mod)


def setup(mod):
    for k in mod.globals:
        n = k[1] if k.__class__ is tuple else k
        if 'detect5cache5CACHE' in n:
            M.CACHE = k if k.__class__ is str else n
    return M.CACHE


def conc(x, what):
    if x.__class__ is not int:
        if x is UNDEF:
            raise Unsupported('undefined ' + what)
        raise Unsupported('symbolic ' + what)
    return x


MAX_ALLOC = 1 << 28


def alloc(m, a, init=False):
    size, al = a
    if size.__class__ is not int:
        if m.symalloc is None:
            raise Unsupported('symbolic allocation size')
        # a block nothing may be read from or written to
        o = m.new_obj(0, 'heap#%d' % m.next_id, 'heap', init, 64 + al if al < 64 else al)
        o.align = al
        m.symsizes[o.base] = size
        return o.base
    if al.__class__ is int and (al & (al - 1)):
        m.violation('bad-layout', 'alignment %d' % al)
    if size > MAX_ALLOC:
        raise Unsupported('allocation of %d bytes' % size)
    o = m.new_obj(size, 'heap#%d' % m.next_id, 'heap', init, 64 + al if al < 64 else al)
    o.align = al
    return o.base


def dealloc(m, a):
    p, size, al = a
    if p.__class__ is not int:
        raise Unsupported('symbolic dealloc')
    if m.merge_depth:
        raise M.NoMerge('dealloc')
    o = m.objs.get(p >> 32)
    if o is None or not o.alive or p != o.base or o.kind != 'heap':
        m.violation('bad-free', 'dealloc of %#x' % p)
    if p in m.symsizes:
        m.require(T.eq0(T.lsub(size, m.symsizes[p])), 'bad-free', 'dealloc of %s with another size' % o.name)
        o.alive = False
        del m.objs[p >> 32]
        return None
    if size != o.size or al != o.align:
        m.violation('bad-free', 'dealloc of %s with layout (%s,%s) instead of (%d,%d)' % (o.name, size, al, o.size, o.align))
    o.alive = False
    del m.objs[p >> 32]
    return None


def realloc(m, a):
    p, size, al, new = a
    q = alloc(m, [new, al])
    m.memcpy(q, p, min(size, new))
    dealloc(m, [p, size, al])
    return q


# ---- rayon model ------------------------------------------------------------------------------

def par_begin(m, a):
    n = conc(a[0], 'parallel length')
    if m.merge_depth:
        raise M.NoMerge('parallel region')
    m.par_stack.append(dict(n=n, items=[], cur=None, locks=False, tls=set(), tls_saved=[], saved=m.log, region=len(m.par) + len(m.par_stack)))
    return None


def order(m, n):
    s = m.schedule
    if s == 'rev':
        return list(range(n - 1, -1, -1))
    if s == 'evenodd':
        return list(range(1, n, 2)) + list(range(0, n, 2))
    return list(range(n))


def finish_item(m, p):
    if p['cur'] is not None:
        p['items'].append((p['cur'], m.log[0], m.log[1]))
        if p['saved'] is not None:
            p['saved'][0].extend(m.log[0])
            p['saved'][1].extend(m.log[1])
        m.log = p['saved']
        p['cur'] = None


def par_item(m, a):
    p = m.par_stack[-1]
    finish_item(m, p)
    k, n = a
    i = order(m, n)[k]
    p['cur'] = i
    m.log = ([], [])
    return i


def par_end(m, a):
    p = m.par_stack.pop()
    finish_item(m, p)
    for o, d, i, s in p['tls_saved']:
        o.data[:], o.ini[:] = d, i
        o.sym.clear()
        o.sym.update(s)
    p['stack'] = {o for it, rd, wr in p['items'] for o, l, h in wr if o in m.objs and m.objs[o].kind == 'stack'}
    m.par.append(p)
    return None


def pool(m, a):
    m.events.append(('pool', a[0]))
    return m.pool_ok


def install(m, a):
    m.events.append(('install', a[0]))
    return None


MODELS = {
    'vp_par_begin': par_begin, 'vp_par_item': par_item, 'vp_par_end': par_end, 'vp_pool': pool, 'vp_install': install,
}


def once_call(m, a):
    """std::sync::Once::call(&self, ignore_poisoning, f: &mut dyn FnMut(&OnceState)), futex flavour: 0 complete, 3 incomplete"""
    once, data, vtable = a[0], a[2], a[3]
    st = m.atomic(m.load_bytes_int, once, 4, 4)
    if conc(st, 'once') & 3 == 0:
        return None
    if m.merge_depth:
        raise M.NoMerge('once')
    m.atomic(m.store_int, once, 1, 4, 4)
    o = m.new_obj(8, 'OnceState', 'stack', True)
    lg, m.log = m.log, None      # under the lock
    try:
        m.call_ptr(m.load_bytes_int(vtable + 32, 8, 8), [data, o.base])
    finally:
        m.log = lg
    m.atomic(m.store_int, once, 0, 4, 4)
    return None


def tail(name):
    return demangle(name)


def external_model(m, name):
    d = demangle(name)
    if name.endswith('___rust_alloc') or d.endswith('__rust_alloc') or '__rust_alloc' == name[-12:]:
        return lambda a: alloc(m, a)
    if name.endswith('___rust_alloc_zeroed') or d.endswith('__rust_alloc_zeroed'):
        return lambda a: alloc(m, a, True)
    if name.endswith('___rust_dealloc') or d.endswith('__rust_dealloc'):
        return lambda a: dealloc(m, a)
    if name.endswith('___rust_realloc') or d.endswith('__rust_realloc'):
        return lambda a: realloc(m, a)
    if '__rust_no_alloc_shim' in name:
        return lambda a: None
    if 'detect_and_initialize' in name:
        def det(a):
            raise Unsupported('CPU detection reached: the CPU feature cache was not preset')
        return det
    if 'available_parallelism' in name:
        def ap(a):
            m.events.append(('available_parallelism',))
            # io::Result<NonZeroUsize>: see call site; modelled as the (tag, value) pair
            return m.avail_result(a)
        return ap
    if '4once5futex' in name and name.endswith('4Once4call'):
        return lambda a: once_call(m, a)
    if 'panic_count' in name and 'is_zero' in name:
        return lambda a: 1
    if 'thread_local' in name and ('register' in name or 'enable' in name) or name == '__cxa_thread_atexit_impl':
        return lambda a: None
    if 'futex' in name and 'wake' in name:
        return lambda a: None
    if any(w in name for w in M.PANIC_WORDS):
        return lambda a: m.panic(d)
    if name in ('memcmp', 'bcmp'):
        def cmp(a):
            p, q, n = a
            x = [m.load_bytes_int(p + i, 1, 1) for i in range(n)]
            y = [m.load_bytes_int(q + i, 1, 1) for i in range(n)]
            if all(e.__class__ is int for e in x + y):
                return (0 if x == y else 1 if x > y else 0xFFFFFFFF)
            raise Unsupported('memcmp of symbolic bytes')
        return cmp
    if name in ('sinf', 'cosf', 'expf', 'powf', 'cbrtf', 'logf', 'sin', 'cos', 'exp', 'log', 'cbrt', 'log2f', 'exp2f',
                'atan2f', 'hypotf', 'atanf', 'tanf', 'sqrtf', 'sqrt', 'floorf', 'ceilf', 'roundf', 'truncf', 'tanh', 'tanhf'):
        base = name[:-1] if name.endswith('f') and name != 'f' else name
        return lambda a: T.fun1(base, a[0], 32 if name.endswith('f') else 64) if len(a) == 1 else T.fun2(base, a[0], a[1], 32 if name.endswith('f') else 64)
    return None
