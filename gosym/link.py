"""Scratch copy of /repo's Go sources, the SSA server and the native build of the harness.

Everything is made afresh from the current working tree on each run, in a directory under /tmp
that the process which made it removes.  Only third-party packages that are not available offline
are replaced by the small stand-ins in gosym/stubs; the repository's own code is copied unchanged.
"""
import atexit
import json
import os
import shutil
import socket
import subprocess
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
MODULE = 'github.com/icon-project/goloop'


def goenv():
    e = dict(os.environ)
    e.update(GOFLAGS='-mod=mod', GOPROXY='off', GOSUMDB='off', CGO_ENABLED='0', GO111MODULE='on', GOWORK='off',
             GOTOOLCHAIN='local')
    e.setdefault('HOME', '/root')
    return e


def prepare(dst, harness):
    """copy of the Go sources with the stand-ins and the harness packages"""
    os.makedirs(dst)
    fs = subprocess.run(['git', '-C', REPO, 'ls-files', '-co', '--exclude-standard', '*.go'],
                        stdout=subprocess.PIPE, text=True, check=True).stdout.split('\n')
    for f in fs:
        if not f or f.endswith('_test.go') or f.startswith(('cmd/', 'javaee/', 'pyee/', 'doc/', 'sdk/')):
            continue
        s, d = os.path.join(REPO, f), os.path.join(dst, f)
        if os.path.exists(s):
            os.makedirs(os.path.dirname(d), exist_ok=True)
            shutil.copy(s, d)
    stubs = os.path.join(HERE, 'stubs')
    req = [ln.split() for ln in open(os.path.join(stubs, 'mods.txt'))]
    shutil.copytree(stubs, dst + '/zzstub')
    with open(dst + '/go.mod', 'w') as o:
        o.write('module %s\n\ngo 1.24\n\nrequire (\n' % MODULE + ''.join('\t%s %s\n' % (m, v) for m, v, _ in req) +
                ')\n\nreplace (\n' + ''.join('\t%s => ./zzstub/%s\n' % (m, d) for m, v, d in req) + ')\n')
    for m, v, d in req:
        with open(dst + '/zzstub/%s/go.mod' % d, 'w') as o:
            o.write('module %s\n\ngo 1.24\n' % m)
            if d.startswith('logrus') and d != 'logrus':
                o.write('\nrequire github.com/sirupsen/logrus v1.9.3\n')
    shutil.copytree(os.path.join(HERE, 'harness', 'sym'), dst + '/zz/sym')
    shutil.copytree(os.path.join(HERE, 'harness', 'kit'), dst + '/zz/kit')
    shutil.copytree(os.path.join(HERE, 'harness', harness), dst + '/zz/' + harness)
    os.makedirs(dst + '/zz/main_' + harness)
    with open(dst + '/zz/main_%s/main.go' % harness, 'w') as o:
        o.write('package main\n\nimport (\n\t"%s/zz/%s"\n\t"%s/zz/sym"\n)\n\nfunc main() { sym.Main(%s.Units) }\n'
                % (MODULE, harness, MODULE, harness))


class Session:
    """one harness package: scratch tree, SSA server, native binary"""

    def __init__(self, harness, server=True, native=True):
        self.harness = harness
        self.dir = tempfile.mkdtemp(prefix='gosym-')
        self.owner = os.getpid()
        self.procs = []
        atexit.register(self.close)
        self.src = self.dir + '/src'
        prepare(self.src, harness)
        self.bin = self.dir + '/native'
        self.sock = self.dir + '/sock'
        self.native = None
        if server:
            dump = self.dir + '/dump'
            shutil.copytree(HERE + '/dump', dump + '_src')
            r = subprocess.run(['go', 'build', '-o', dump, '.'], cwd=dump + '_src', env=goenv(), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise RuntimeError('building the SSA server failed: ' + r.stdout[-2000:])
            p = subprocess.Popen([dump, self.src, self.sock, './zz/' + harness], cwd=self.src, env=goenv(),
                                 stdout=subprocess.PIPE, stderr=open(self.dir + '/dump.err', 'w'), text=True)
            self.procs.append(p)
            if p.stdout.readline().strip() != 'ready':
                raise RuntimeError('the Go sources do not load: ' + open(self.dir + '/dump.err').read()[-3000:])
        if native:
            self.native = subprocess.Popen(['nice', 'go', 'build', '-o', self.bin, './zz/main_' + harness], cwd=self.src,
                                           env=goenv(), stdout=open(self.dir + '/build.out', 'w'),
                                           stderr=subprocess.STDOUT)
            self.procs.append(self.native)

    def wait_native(self):
        if self.native is not None and self.native.wait() != 0:
            raise RuntimeError('native build failed: ' + open(self.dir + '/build.out').read()[-3000:])

    def close(self):
        if os.getpid() != self.owner:
            return
        for p in self.procs:
            if p.poll() is None:
                p.kill()
                p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)


class Client:
    """connection to the SSA server; one per process"""

    def __init__(self, sock):
        self.path = sock
        self.pid = None
        self.cache = {}

    def __call__(self, op, **kw):
        key = (op, tuple(sorted(kw.items())))
        r = self.cache.get(key)
        if r is not None:
            return r
        if self.pid != os.getpid():
            self.pid = os.getpid()
            self.s = socket.socket(socket.AF_UNIX)
            self.s.connect(self.path)
            self.f = self.s.makefile('rwb')
        self.f.write(json.dumps(dict(kw, op=op)).encode() + b'\n')
        self.f.flush()
        r = json.loads(self.f.readline())
        if 'err' in r:
            raise RuntimeError('ssa server: %s %s: %s' % (op, kw, r['err']))
        self.cache[key] = r
        return r


def run_native(binary, unit, args, inputs, timeout=60):
    """one concrete run of the harness compiled by the Go compiler"""
    inputs = {k: [t, str(v) if type(v) is int else v] for k, (t, v) in inputs.items()}
    p = subprocess.run([binary], input=json.dumps(dict(unit=unit, args=args, inputs=inputs)).encode(),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    for ln in p.stdout.decode('utf-8', 'replace').split('\n'):
        if ln.startswith('@@RESULT '):
            return json.loads(ln[9:])
    return {'failures': ['no answer from the native run'], 'assume': False, 'observed': [],
            'error': p.stderr.decode('utf-8', 'replace')[-2000:]}
