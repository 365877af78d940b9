"""Scratch builds from /repo's working tree: protobuf headers, LLVM IR of drivers, native harnesses."""
import os
import shutil
import subprocess
import tempfile
import atexit
import signal
import threading

REPO = os.environ.get('YG_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CXX = 'clang++-18'
STD = ['-std=c++17', '-include', 'array']
PROTOS = ['banlist', 'client_msg', 'deck', 'duel_answer', 'duel_data', 'duel_msg', 'replay', 'room', 'server_msg', 'user']


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), (r.stderr or r.stdout)[-4000:]))
    return r.stdout


class Work:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='ygv-')
        self.pid = os.getpid()
        atexit.register(self.close)
        signal.signal(signal.SIGTERM, lambda *a: os._exit(self.close() or 143))
        self._pb = None
        self._lock = threading.Lock()
        self._obj = None

    def close(self):
        if os.getpid() == self.pid and self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)
            self.dir = None

    def pb(self):
        """directory with the generated protobuf sources"""
        with self._lock:
            return self._pb or self._mkpb()

    def _mkpb(self):
        if self._pb is None:
            d = os.path.join(self.dir, 'pb')
            os.makedirs(d)
            src = os.path.join(REPO, 'include/ygopen/proto')
            fs = [os.path.join(src, p + '.proto') for p in PROTOS if os.path.exists(os.path.join(src, p + '.proto'))]
            run(['protoc', '--proto_path=' + src, '--cpp_out=lite:' + d] + fs)
            self._pb = d
        return self._pb

    def inc(self):
        return ['-I' + os.path.join(REPO, 'include'), '-I' + self.pb(), '-I' + os.path.join(VERIF, 'drivers')]

    def ll(self, src, flags=(), repo_src=False):
        """LLVM IR text of a driver (or a source file of the repository)"""
        path = os.path.join(REPO, src) if repo_src else os.path.join(VERIF, 'drivers', src)
        out = os.path.join(self.dir, os.path.basename(src) + '.ll')
        run([CXX] + STD + list(flags) + self.inc() +
            ['-O0', '-Xclang', '-disable-O0-optnone', '-fno-exceptions', '-fno-discard-value-names', '-w',
             # code declared unreachable stays visible as a trap: that it is not reached is an obligation
             '-fsanitize=unreachable,return', '-fsanitize-trap=unreachable,return',
             '-S', '-emit-llvm', path, '-o', out])
        opt = out[:-3] + '.opt.ll'
        run(['opt-18', '-S', '-passes=sroa,early-cse,simplifycfg', out, '-o', opt])
        with open(opt) as f:
            return f.read()

    def exe(self, srcs, out, repo_srcs=(), pbs=('duel_data', 'duel_msg', 'duel_answer', 'deck', 'room', 'user', 'banlist'), flags=('-O1', '-g0')):
        """native harness"""
        procs = []
        objs = []
        todo = [(os.path.join(VERIF, 'drivers', s), list(flags)) for s in srcs]
        todo += [(os.path.join(REPO, s), list(flags)) for s in repo_srcs]
        if self._obj is None:
            self._obj = {}
        for p in pbs:
            if p not in self._obj:
                self._obj[p] = os.path.join(self.dir, p + '.pb.o')
                todo.append((os.path.join(self.pb(), p + '.pb.cc'), ['-O0']))
            objs.append(self._obj[p])
        for i, (s, fl) in enumerate(todo):
            o = os.path.join(self.dir, os.path.basename(s)[:-4] + '.%s.o' % os.path.basename(out)) if not s.endswith('.pb.cc') \
                else os.path.join(self.dir, os.path.basename(s)[:-3] + '.o')
            if not s.endswith('.pb.cc'):
                objs.append(o)
            else:
                o = self._obj[os.path.basename(s)[:-6]]
            procs.append((s, subprocess.Popen([CXX] + STD + fl + ['-w'] + self.inc() + ['-c', s, '-o', o],
                                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for s, p in procs:
            t = p.communicate()[0]
            if p.returncode:
                raise BuildError(s + '\n' + t[-4000:])
        exe = os.path.join(self.dir, out)
        run([CXX, '-o', exe] + objs + ['-lprotobuf-lite', '-lpthread'] + [f for f in flags if f.startswith('-fsan')])
        return exe
