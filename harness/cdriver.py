"""The C++ planners of /repo, compiled from its current tree together with the simulator in /verif/cpp, and driven over
a pipe: one line in is one simulated run, one line of JSON out is what happened."""
import fcntl
import glob
import hashlib
import json
import os
import select
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = '/repo/cpp/src'
CPP = os.path.join(HERE, 'cpp')
OUT = os.path.join(HERE, 'build')
FLAGS = ['-std=c++17', '-O1', '-g1', '-w', '-fno-omit-frame-pointer', '-I' + os.path.join(CPP, 'include'), '-I' + SRC]


def digest():
    h = hashlib.blake2b(digest_size=10)
    files = glob.glob(SRC + '/**/*.hh', recursive=True) + glob.glob(CPP + '/**/*', recursive=True)
    for f in sorted(files):
        if os.path.isfile(f):
            h.update(f.encode())
            h.update(open(f, 'rb').read())
    return h.hexdigest()


def build(names):
    """Compiles the drivers which are not there yet; returns the directory they are in."""
    d = os.path.join(OUT, digest())
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(OUT, '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        jobs = []
        rt = os.path.join(d, 'runtime.o')
        if not os.path.exists(rt):
            subprocess.run(['g++'] + FLAGS + ['-c', os.path.join(CPP, 'runtime.cc'), '-o', rt + '.tmp'], check=True)
            os.rename(rt + '.tmp', rt)
        for n in names:
            exe = os.path.join(d, n)
            if not os.path.exists(exe):
                cmd = ['g++'] + FLAGS + ['-fsanitize=thread', '-c', os.path.join(CPP, f'driver_{n}.cc'), '-o', exe + '.o']
                jobs.append((n, exe, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for n, exe, p in jobs:
            out = p.communicate()[0]
            if p.returncode:
                raise RuntimeError(f'the driver of {n} does not compile: {out[:3000]}')
            subprocess.run(['g++', exe + '.o', rt, '-o', exe + '.tmp'], check=True)
            os.unlink(exe + '.o')
            os.rename(exe + '.tmp', exe)
        olds = sorted((x for x in glob.glob(OUT + '/*') if os.path.isdir(x) and x != d), key=os.path.getmtime)
        for x in olds[:-5]:
            shutil.rmtree(x, ignore_errors=True)
    return d


class Driver:
    made = {}

    def __init__(self, name):
        self.name = name
        self.exe = os.path.join(build([name]), name)
        self.p = None
        self.pid = None

    @classmethod
    def get(cls, name):
        d = cls.made.get(name)
        if d is None or d.pid not in (None, os.getpid()):
            d = cls.made[name] = cls(name)
        return d

    def start(self):
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        self.pid = os.getpid()
        self.buf = b''

    def run(self, line):
        if self.p is None or self.p.poll() is not None:
            self.start()
        self.p.stdin.write(line.encode() + b'\n')
        self.p.stdin.flush()
        end = time.time() + 60
        fd = self.p.stdout.fileno()
        while b'\n' not in self.buf:
            r, _, _ = select.select([fd], [], [], 1.0)
            if r:
                data = os.read(fd, 1 << 20)
                if not data:
                    rc = self.p.wait()
                    self.p = None
                    raise RuntimeError(f'the driver of {self.name} ended with {rc}')
                self.buf += data
            elif time.time() > end:
                self.p.kill()
                self.p.wait()
                self.p = None
                raise RuntimeError(f'the driver of {self.name} does not answer')
        out, self.buf = self.buf.split(b'\n', 1)
        d = json.loads(out)
        if d['fail'] and (d['fail'].startswith('crash') or d['fail'].startswith('hang')):
            self.p.wait()
            self.p = None
        if d['fail'] and d['fail'].startswith('harness'):
            raise RuntimeError(d['fail'])
        return d


def encode(spec):
    """spec: cfg (simulator), par, cap, hashmod, mdp, params, ops, optionally trace."""
    c = spec['cfg']
    t = spec.get('trace')
    w = [spec['sched_seed'], c['workers'], c['mode'], c['p'], c['changes'], c['stall'][0], c['stall'][1], c['stall'][2],
         c['call_ns'], c['jump'][0], c['jump'][1], c['fail'], c['fine'], c['reuse'], c['pad'], c['max_points'], int(t is not None)]
    w.append(len(t) if t is not None else 0)
    for a, b in t or ():
        w += [a, b]
    w += [spec['par'], spec['cap'], spec['hashmod'], len(spec['mdp'])]
    for s in spec['mdp']:
        w += [int(s['g']), int(s['t']), repr(float(s['h'])), len(s['a'])]
        for i, outs in s['a']:
            w += [i, len(outs)]
            for p, cost, to in outs:
                w += [repr(float(p)), repr(float(cost)), to]
        f = s.get('f', ())
        w += [len(f)] + list(f)
    w += [len(spec['params'])] + [repr(float(x)) for x in spec['params']]
    w += [len(spec['ops'])]
    for a, b in spec['ops']:
        w += [a, b]
    return ' '.join(map(str, w))
