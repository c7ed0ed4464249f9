"""Builds the IR and the native library from /repo's current working tree."""
import glob
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    e['RUSTUP_TOOLCHAIN'] = 'nightly'
    e['CARGO_NET_OFFLINE'] = 'true'
    e.pop('RUSTFLAGS', None)
    return e


def start(kind, features=()):
    """kind 'ir' or 'native'; returns a handle for finish()"""
    tag = kind + ''.join('-' + f for f in sorted(features))
    e = env()
    tgt = os.path.join(VERIF, 'build', tag)
    e['CARGO_TARGET_DIR'] = tgt
    cwd = os.path.join(VERIF, 'harness' if kind == 'ir' else 'harness-native')
    if kind == 'ir':
        e['RUSTFLAGS'] = '--emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp'
    cmd = ['cargo', 'build', '--release', '--offline']
    if features:
        cmd += ['--features', ','.join(features)]
    os.makedirs(tgt, exist_ok=True)
    log = open(os.path.join(tgt, 'vp.log'), 'w')
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=log, stderr=log)
    return dict(p=p, tgt=tgt, kind=kind, t=time.time(), log=log.name)


def finish(h):
    rc = h['p'].wait()
    h['secs'] = time.time() - h['t']
    if rc:
        raise BuildError('%s build failed:\n%s' % (h['kind'], open(h['log']).read()[-3000:]))
    if h['kind'] == 'native':
        return os.path.join(h['tgt'], 'release', 'libvhn.so')
    out = []
    pk = ['vh', 'pic-scale', 'rayon']
    if os.path.isdir(os.path.join(h['tgt'], 'release', 'build', 'colorutils-rs')):
        pk.append('colorutils-rs')
    for c in pk:
        fs = [f for f in glob.glob(os.path.join(h['tgt'], 'release', 'build', c, '*', 'out', '*.ll'))]
        if not fs:
            fs = [f for f in glob.glob(os.path.join(h['tgt'], 'release', 'deps', c.replace('-', '_') + '-*.ll'))]
        if not fs:
            raise BuildError('no IR for ' + c)
        out.append(max(fs, key=os.path.getmtime))
    return out


def clean(kind, features=()):
    tag = kind + ''.join('-' + f for f in sorted(features))
    shutil.rmtree(os.path.join(VERIF, 'build', tag), ignore_errors=True)
