"""Client of the native library (in a worker process that may crash)."""
import base64
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


class Native:
    def __init__(self, so):
        self.so = so
        nm = subprocess.run(['nm', so], capture_output=True, text=True).stdout
        self.off = None
        for l in nm.split('\n'):
            if 'detect5cache5CACHE' in l:
                self.off = int(l.split()[0], 16)
        if self.off is None:
            raise RuntimeError('no CPU feature cache symbol in ' + so)
        self.p = None

    def worker(self):
        if self.p is None or self.p.poll() is not None:
            self.p = subprocess.Popen([sys.executable, os.path.join(HERE, 'native_worker.py'), self.so, str(self.off)],
                                      stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        return self.p

    def ask(self, o):
        p = self.worker()
        try:
            p.stdin.write(json.dumps(o) + '\n')
            p.stdin.flush()
            l = p.stdout.readline()
        except BrokenPipeError:
            l = ''
        if not l:
            rc = p.wait()
            self.p = None
            return {'crash': rc}
        return json.loads(l)

    def run(self, which, job, src, dst, cpu, guard=True, front=False):
        r = self.ask(dict(op='run', which=which, job=job, src=base64.b64encode(src).decode(),
                          dst=base64.b64encode(dst).decode(), cpu=cpu, guard=guard, front=front))
        if 'dst' in r:
            r['dst'] = base64.b64decode(r['dst'])
        return r

    def rcp(self, xs, kind='rcp'):
        return self.ask(dict(op='rcp', xs=xs, kind=kind))

    def close(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None
