"""Runs jobs against the native library: JSON lines on stdin/stdout. A crash ends this process."""
import ctypes
import json
import os
import mmap
import struct
import sys
import base64

so, cache_off = sys.argv[1], int(sys.argv[2])
lib = ctypes.CDLL(so)
libc = ctypes.CDLL('libc.so.6')
base = None
for l in open('/proc/self/maps'):
    if so in l:
        base = int(l.split('-')[0], 16)
        break
cache = (ctypes.c_uint64 * 3).from_address(base + cache_off)
lib.n_rcp.restype = ctypes.c_float
lib.n_rcp.argtypes = [ctypes.c_float]
lib.n_rcp14.restype = ctypes.c_float
lib.n_rcp14.argtypes = [ctypes.c_float]
PAGE = 4096
libc.mmap.restype = ctypes.c_void_p
libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
libc.munmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t]


def guarded(data, front):
    n = len(data)
    body = (n + PAGE - 1) // PAGE * PAGE or PAGE
    p = libc.mmap(None, body + 2 * PAGE, 0, 0x22, -1, 0)
    libc.mprotect(p + PAGE, body, 3)
    a = p + PAGE if front else p + PAGE + body - n
    ctypes.memmove(a, data, n)
    return a, p, body + 2 * PAGE


FIELDS = ['fmt', 'filter', 'workload', 'policy', 'threads', 'premul', 'src', 'src_len', 'sw', 'sh', 'sstride', 'sdepth',
          'dst', 'dst_len', 'dw', 'dh', 'dstride', 'ddepth', 'kind', 'schan', 'dchan', 'extra']
M = (1 << 64) - 1
for line in sys.stdin:
    j = json.loads(line)
    # a process of its own for each call: whatever the library keeps in static memory is as it was when it was loaded
    sys.stdout.flush()
    pid = os.fork()
    if pid:
        st = os.waitpid(pid, 0)[1]
        if st:
            print(json.dumps({'crash': -os.WTERMSIG(st) if os.WIFSIGNALED(st) else os.WEXITSTATUS(st)}), flush=True)
        continue
    if j['op'] == 'rcp':
        print(json.dumps([getattr(lib, 'n_' + j['kind'])(x) for x in j['xs']]), flush=True)
        os._exit(0)
    for i, w in enumerate(j['cpu']):
        cache[i] = w
    src = base64.b64decode(j['src'])
    dst = base64.b64decode(j['dst'])
    front = j.get('front', False)
    s = guarded(src, front)
    d = guarded(dst, front)
    f = dict(j['job'])
    if 'src' not in f:
        f['src'] = s[0]
    if 'dst' not in f:
        f['dst'] = d[0]
    buf = ctypes.create_string_buffer(struct.pack('<22Q', *[f.get(k, 0) & M for k in FIELDS]) + bytes(64))
    lib.n_guard(1 if j.get('guard') else 0)
    rc = lib.n_call(j['which'], buf)
    lib.n_guard(0)
    out = ctypes.string_at(d[0], len(dst))
    src2 = ctypes.string_at(s[0], len(src))
    o = struct.unpack('<8Q', buf.raw[176:240])
    libc.munmap(s[1], s[2])
    libc.munmap(d[1], d[2])
    print(json.dumps({'rc': rc, 'dst': base64.b64encode(out).decode(), 'src_ok': src2 == src, 'out': o}), flush=True)
    os._exit(0)
