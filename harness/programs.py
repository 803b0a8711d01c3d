"""Learnt policies: Cartesian genetic programming and random search over simulated Gym environments, processors and disks."""
import collections
import contextlib
import io
import math
import os
import random
import re
import shutil
import tempfile
import threading
import warnings
from importlib import import_module as im

from harness.common import Harness, Outcome, drop_each
from harness.local import Base, Boom, hsh

P = 'skdecide.hub.solver.cgp.'
LIB = {'sum': (2, lambda a: .5 * (a[0] + a[1])), 'aminus': (2, lambda a: .5 * abs(a[0] - a[1])), 'mult': (2, lambda a: a[0] * a[1]),
       'exp': (2, lambda a: (math.exp(a[0]) - 1) / (math.e - 1)), 'abs': (1, lambda a: abs(a[0])), 'sqrt': (1, lambda a: math.sqrt(abs(a[0]))),
       'sqrtxy': (2, lambda a: math.hypot(a[0], a[1]) / math.sqrt(2)), 'squared': (1, lambda a: a[0] ** 2),
       'pow': (2, lambda a: abs(a[0]) ** abs(a[1])), 'one': (0, lambda a: 1.), 'zero': (0, lambda a: 0.),
       'inv': (1, lambda a: (a[0] > 0) - (a[0] < 0)), 'gt': (2, lambda a: float(a[0] > a[1])), 'asin': (1, lambda a: 2 * math.asin(a[0]) / math.pi),
       'acos': (1, lambda a: math.acos(a[0]) / math.pi), 'atan': (1, lambda a: 4 * math.atan(a[0]) / math.pi), 'min': (2, lambda a: min(a)),
       'max': (2, lambda a: max(a)), 'round': (1, lambda a: round(a[0])), 'floor': (1, lambda a: math.floor(a[0])), 'ceil': (1, lambda a: math.ceil(a[0]))}
STEPS = {'gt', 'inv', 'round', 'floor', 'ceil'}   # jump: rounding of what they are given shows
num = lambda x: float(x)


def close(a, b, tol=1e-6):
    return abs(a - b) <= tol * max(1., abs(a), abs(b))


# ---------------------------------------------------------------------------------------------- spaces
def gen_space(rng, top=True):
    k = rng.choice(['disc', 'disc', 'box', 'box'] + ['tuple'] * top)
    if k == 'disc':
        return ['disc', rng.choice([1, 2, 2, 3, 5])]
    if k == 'tuple':
        return ['tuple', [gen_space(rng, False) for _ in range(rng.choice([1, 2, 2, 3]))]]
    shape = rng.choice([[1], [1], [2], [3], [2, 2]])
    n = math.prod(shape)
    b = [rng.choice([(-1., 1.), (-1., 1.), (0., 1.), (-2., 3.), (.5, 4.), (-math.inf, math.inf), (-math.inf, 2.), (-3., math.inf), (1., 1.)]) for _ in range(n)]
    return ['box', shape, [str(x) for x, y in b], [str(y) for x, y in b]]


def make_space(s):
    import gym
    import numpy as np
    if s[0] == 'disc':
        return gym.spaces.Discrete(s[1])
    if s[0] == 'tuple':
        return gym.spaces.Tuple([make_space(x) for x in s[1]])
    f = lambda v: np.array([float(x) for x in v], dtype=np.float32).reshape(s[1])
    return gym.spaces.Box(f(s[2]), f(s[3]), dtype=np.float32)


def cells(s):
    """what a space holds, flat: ('disc', n) or ('box', low, high)"""
    if s[0] == 'disc':
        return [('disc', s[1])]
    if s[0] == 'tuple':
        return [c for x in s[1] for c in cells(x)]
    return [('box', float(l), float(h)) for l, h in zip(s[2], s[3])]


def element(s, draw):
    """an element of the space as Gym gives it; draw(cell) gives its numbers"""
    import numpy as np
    if s[0] == 'disc':
        return draw(('disc', s[1]))
    if s[0] == 'tuple':
        return tuple(element(x, draw) for x in s[1])
    return np.array([draw(c) for c in cells(s)], dtype=np.float32).reshape(s[1])


def flat(s, e):
    """the numbers of an element; None if it is not one of the space's"""
    import numpy as np
    if s[0] == 'disc':
        ok = np.ndim(e) == 0 and int(e) == e and 0 <= e < s[1]
        return [int(e)] if ok else None
    if s[0] == 'tuple':
        if not isinstance(e, (tuple, list)) or len(e) != len(s[1]):
            return None
        parts = [flat(x, y) for x, y in zip(s[1], e)]
        return None if None in parts else sum(parts, [])
    try:
        a = np.asarray(e, dtype=float)
    except ValueError:
        return None
    if list(a.shape) != s[1]:
        return None
    out = [float(x) for x in a.reshape(-1)]
    for x, (_, l, h) in zip(out, cells(s)):
        if not l - 1e-5 <= x <= h + 1e-5:
            return None
    return out


def norm(c, x):
    l, h = (0, c[1] - 1) if c[0] == 'disc' else (max(c[1], -1.) if c[1] == -math.inf else c[1], 1. if c[2] == math.inf else c[2])
    if l == h:
        return -1.
    return (max(l, min(h, x)) - l) / (h - l) * 2 - 1


def denorm(c, x):
    """the values an output may stand for"""
    x = (max(-1., min(1., x)) + 1) / 2
    if c[0] == 'disc':
        return {min(c[1] - 1, max(0, int(math.floor(y * c[1])))) for y in (x - 1e-9, x, x + 1e-9)}
    l, h = -1. if c[1] == -math.inf else c[1], 1. if c[2] == math.inf else c[2]
    return l + x * (h - l)


def fits(s, outputs, acts):
    """do these numbers act for those outputs?"""
    return len(outputs) == len(acts) and all(a in denorm(c, o) if c[0] == 'disc' else close(a, denorm(c, o), 1e-5) for c, o, a in zip(cells(s), outputs, acts))


# -------------------------------------------------------------------------------------------- programs
class Ref:
    """what a genome computes: each node hands on, at every step, what its sources held one step before"""
    def __init__(self, genes, ni, no, cols, rows, lib):
        self.genes, self.ni, self.no, self.cols, self.rows, self.lib = [int(g) for g in genes], ni, no, cols, rows, lib
        self.ar = max(LIB[f][0] for f in lib)
        self.mem = [0.] * (cols * rows)
        self.risk = False

    def node(self, k):
        at = k * (self.ar + 1)
        return self.lib[self.genes[at]], self.genes[at + 1:at + 1 + self.ar]

    def valid(self):
        if len(self.genes) != self.cols * self.rows * (self.ar + 1) + self.no:
            return f'{len(self.genes)} genes'
        for k in range(self.cols * self.rows):
            at = k * (self.ar + 1)
            if not 0 <= self.genes[at] < len(self.lib):
                return f'node {k} has function {self.genes[at]}'
            for g in self.genes[at + 1:at + 1 + self.ar]:
                if not 0 <= g < self.ni + k // self.rows * self.rows:
                    return f'node {k} reads {g}, {self.ni} inputs, {self.rows} rows'
        for g in self.genes[-self.no:]:
            if not 0 <= g < self.ni + self.cols * self.rows:
                return f'an output reads {g}'

    def used(self):
        todo, out = [g for g in self.genes[-self.no:]], set()
        while todo:
            g = todo.pop()
            if g >= self.ni and g - self.ni not in out:
                out.add(g - self.ni)
                f, args = self.node(g - self.ni)
                todo += args
        return out

    def run(self, inputs):
        vals = list(inputs) + self.mem
        new = list(self.mem)
        for k in self.used():
            f, args = self.node(k)
            a = [vals[g] for g in args]
            new[k] = float(LIB[f][1](a))
        if any(self.node(k)[0] in STEPS for k in self.used()):
            self.risk = True
        self.mem = new
        return [(list(inputs) + new)[g] for g in self.genes[-self.no:]]

    def text(self, g, names):
        if g < self.ni:
            return names[g]
        f, args = self.node(g - self.ni)
        return f + '(' + ', '.join(self.text(a, names) for a in args[:LIB[f][0]]) + ')'

    def size(self, g):
        return 1 if g < self.ni else 1 + sum(self.size(a) for a in self.node(g - self.ni)[1][:LIB[self.node(g - self.ni)[0]][0]])


def library(names):
    c, f = im(P + 'pycgp.cgp').CGP, im(P + 'pycgp.cgpfunctions')
    return [c.CGPFunc(getattr(f, 'f_' + n), n, LIB[n][0]) for n in names]


# --------------------------------------------------------------------------------------- environments
def make_env(run):
    import gym
    import numpy as np
    sp = run.spec
    act, obs = make_space(sp['act']), make_space(sp['obs'])

    class Env(gym.Env):
        def __init__(self):
            run.made += 1
            self.action_space, self.observation_space = act, obs
            self.ep = None

        def look(self):
            def draw(c):
                self.k += 1
                h = hsh(sp['salt'], 'obs', self.t, self.k, self.key)
                if c[0] == 'disc':
                    return h % c[1]
                l, u = max(c[1], -4.), min(c[2], 4.)
                return float(np.float32(min(u, max(l, l + (u - l) * (h % 9) / 8))))
            self.k = 0
            e = element(sp['obs'], draw)
            self.ep['obs'].append(flat(sp['obs'], e))
            return e

        def reset(self):
            self.ep = {'obs': [], 'acts': [], 'rewards': [], 'done': False, 'env': self}
            run.episodes.append(self.ep)
            run.event('reset')
            run.pause()
            self.t, self.key = 0, 0
            return self.look()

        def step(self, a):
            run.event('step')
            run.pause()
            if self.ep is None or self.ep['done']:
                run.fail('step after the end', 'of an episode')
                raise Boom('stop')
            f = flat(sp['act'], a)
            if f is None:
                run.fail('action', f'{a!r} is not of the space {sp["act"]}')
                raise Boom('stop')
            run.event('act', [round(float(x), 6) for x in f])
            self.ep['acts'].append(f)
            self.t += 1
            # close numbers act alike
            self.key = hsh(self.key, [x if c[0] == 'disc' else int(x > 0) for c, x in zip(cells(sp['act']), f)]) % 5 if sp['memory'] else 0
            h = hsh(sp['salt'], 'reward', self.t, self.key)
            r = (h % sp['spread'] - sp['spread'] // 3) / 2
            if sp['nan'] and h % 7 == 0:
                r = math.nan
            self.ep['done'] = self.t >= sp['long'] or h % 11 == 0
            self.ep['rewards'].append(r)
            return self.look(), r, self.ep['done'], {}
    return Env


class SimParallel:
    """stands in for joblib's: a seeded scheduler switches between the workers whenever they reach the environment"""
    def __init__(self, run, n_jobs=1, require=None, prefer=None, backend=None, **kw):
        self.run, self.n, self.threads = run, max(1, n_jobs or 1), 'sharedmem' == require or prefer == 'threads' or backend == 'threading'

    def __call__(self, tasks):
        run, results, errors = self.run, {}, []
        tasks = list(tasks)
        if not self.threads:
            from joblib.externals import cloudpickle
            tasks = [cloudpickle.loads(cloudpickle.dumps(t)) for t in tasks]
        run.stats['parallel evaluations'] += 1
        back = threading.Semaphore(0)
        gates, done, waiting, active = {}, set(), list(range(len(tasks))), []

        def work(i):
            gates[i].acquire()
            try:
                f, args, kw = tasks[i]
                results[i] = f(*args, **kw)
            except BaseException as e:
                errors.append(e)
            done.add(i)
            back.release()
        run.worker = None
        run.back, run.gates = back, gates
        last = None
        while (waiting and not errors) or active:
            while waiting and len(active) < self.n and not errors:
                i = waiting.pop(0)
                gates[i] = threading.Semaphore(0)
                th = threading.Thread(target=work, args=(i,))
                th.start()
                active.append(i)
            run.k += 1
            i = active[hsh(run.spec['salt'], 'switch', run.k) % len(active)]
            run.stats['switches'] += last is not None and last != i
            last = run.worker = i
            gates[i].release()
            back.acquire()
            run.worker = None
            if i in done:
                active.remove(i)
        if errors:
            raise errors[0]
        return [results[i] for i in range(len(tasks))]


class ProgramRun(Base):
    worker, k, made = None, 0, 0

    def pause(self):
        w = self.worker
        if w is not None:
            self.back.release()
            self.gates[w].acquire()

    def go(self):
        sp = self.spec
        self.episodes = []
        random.seed(sp['salt'])
        im('skdecide.utils')
        import numpy as np
        np.random.seed(sp['salt'] % (1 << 32))
        warnings.simplefilter('ignore')
        self.dir = tempfile.mkdtemp(prefix='programs')
        import joblib
        es = im(P + 'pycgp.cgpes')
        was = joblib.Parallel, getattr(es, 'Parallel', None)
        try:
            joblib.Parallel = lambda *a, **k: SimParallel(self, *a, **k)
            if was[1] is not None:
                es.Parallel = joblib.Parallel
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                try:
                    getattr(self, 'do_' + sp['kind'])()
                except Exception as e:
                    self.crash(sp['kind'], e)
        finally:
            joblib.Parallel = was[0]
            if was[1] is not None:
                es.Parallel = was[1]
            shutil.rmtree(self.dir)

    # -- programs by themselves
    def do_program(self):
        sp = self.spec
        CGP = im(P + 'pycgp.cgp').CGP
        lib = library(sp['lib'])
        ni, no, cols, rows = sp['ni'], sp['no'], sp['cols'], sp['rows']
        c = CGP.random(ni, no, cols, rows, lib, 1.0)
        pool = [[c, None]]

        def judge(e):
            e[1] = Ref(e[0].genome, ni, no, cols, rows, sp['lib'])
            bad = e[1].valid()
            if bad:
                self.fail('genome', bad)
            return not bad
        if not judge(pool[0]):
            return
        for self.n, op in enumerate(sp['ops']):
            e = pool[op['i'] % len(pool)]
            before = [list(map(int, x[0].genome)) for x in pool]
            do = op['do']
            self.event(do, op['i'] % len(pool))
            self.stats[do] += 1
            if do == 'run':
                for s in range(op['k']):
                    inp = [hsh(sp['salt'], 'in', self.n if not op['same'] else 0, s if not op['same'] else 0, j) % 9 / 4 - 1 for j in range(ni)]
                    got = [float(x) for x in e[0].run(inp)]
                    want = e[1].run(inp)
                    if len(got) != no or not all(close(a, b) for a, b in zip(got, want)):
                        if e[1].risk:   # a rounding decides
                            self.stats['undecided'] += 1
                            return
                        return self.fail('outputs', f'{got} instead of {want} for {inp}')
                    if not all(-1 - 1e-9 <= x <= 1 + 1e-9 for x in got):
                        return self.fail('range', f'{got}')
            elif do in ('mutate', 'genes'):
                if do == 'mutate':
                    e[0].mutate(op['k'])
                else:
                    e[0].mutate_per_gene(op['nodes'], op['outs'])
                a, b = before[op['i'] % len(pool)], list(map(int, e[0].genome))
                diff = [j for j, (x, y) in enumerate(zip(a, b)) if x != y]
                if do == 'mutate' and len(diff) > op['k']:
                    return self.fail('mutation', f'{len(diff)} genes by {op["k"]} changes')
                if do == 'genes' and (not op['nodes'] and any(j < len(a) - no for j in diff) or not op['outs'] and any(j >= len(a) - no for j in diff)):
                    return self.fail('mutation', f'{diff} changed with rates {op["nodes"]} and {op["outs"]}')
                self.stats['genes changed'] += len(diff)
                if not judge(e):
                    return
            elif do == 'clone' and len(pool) < 5:
                pool.append([e[0].clone(), None])
                before.append(before[op['i'] % (len(pool) - 1)])
                if not judge(pool[-1]):
                    return
                if pool[-1][1].genes != e[1].genes:
                    return self.fail('clone', 'has other genes')
            elif do == 'save':
                name = os.path.join(self.dir, f'{self.n}.txt')
                e[0].save(name)
                c = CGP.load_from_file(name, lib)
                if list(map(int, c.genome)) != e[1].genes or (c.num_inputs, c.num_outputs, c.num_cols, c.num_rows) != (ni, no, cols, rows):
                    return self.fail('saved program', f'{list(c.genome)} instead of {e[1].genes}')
                pool[op['i'] % len(pool)] = e = [c, None]
                if not judge(e):
                    return
            elif do == 'print' and sum(e[1].size(g) for g in e[1].genes[-no:]) < 300:
                out = io.StringIO()
                names, outs = [f'x{j}' for j in range(ni)], [f'y{j}' for j in range(no)]
                with contextlib.redirect_stdout(out):
                    e[0].to_function_string(names, outs)
                want = [f'{o} = {e[1].text(g, names)};' for o, g in zip(outs, e[1].genes[-no:])]
                if [l for l in out.getvalue().split('\n') if l] != want:
                    return self.fail('printed', f'{out.getvalue()!r} instead of {want}')
            elif do == 'draw':
                names, outs = [f'x{j}' for j in range(ni)], [f'y{j}' for j in range(no)]
                name = os.path.join(self.dir, 'graph.dot')
                e[0].to_dot(name, names, outs)
                with open(name) as f:
                    text = f.read()
                got = {tuple(x.strip(' \t') for x in re.match(r'(.*) -> (.*) \[label="(\d+)"\]', l).groups()) for l in text.split('\n') if '->' in l}
                shown = {l.split('[')[0].strip() for l in text.split('\n') if 'shape' in l}
                want, todo, seen = set(), [(o, g, 0) for o, g in zip(outs, e[1].genes[-no:])], set()
                while todo:
                    to, g, a = todo.pop()
                    f, args = (None, []) if g < ni else e[1].node(g - ni)
                    me = names[g] if g < ni else f'{f}_{g - ni}'
                    want.add((me, to, str(a)))
                    if f and g not in seen:
                        todo += [(me, x, k) for k, x in enumerate(args[:LIB[f][0]])]
                    seen.add(g)
                if got != want:
                    return self.fail('drawn', f'arrows {sorted(got ^ want)} differ')
                if not shown >= {x for w in want for x in w[:2]}:
                    return self.fail('drawn', f'only {sorted(shown)}')
            elif do == 'chance' and cols * rows <= 6 and ni <= 3 and len(lib) <= 4:
                seen = [collections.Counter() for _ in e[1].genes]
                for _ in range(400):
                    if op['same']:
                        x = CGP.random(ni, no, cols, rows, lib, 1.0)
                    else:
                        x = e[0].clone()
                        x.mutate_per_gene(1., 1.)
                    for j, g in enumerate(x.genome):
                        seen[j][int(g)] += 1
                for j, c in enumerate(seen):
                    k, r = divmod(j, e[1].ar + 1)
                    n = ni + cols * rows if k >= cols * rows else len(lib) if r == 0 else ni + k // rows * rows
                    if set(c) != set(range(n)):
                        return self.fail('chance', f'gene {j} is one of {sorted(c)}, not of {n}')
            for x, b in zip(pool, before):
                if x is not e and list(map(int, x[0].genome)) != b:
                    return self.fail('shared genes', f'{do} of one program changes another')

    # -- episodes
    def domain(self):
        if not hasattr(self, 'Env'):
            self.Env = make_env(self)
        self.steps += 1
        return im('skdecide.hub.domain.gym').GymDomain(self.Env())

    def inputs(self, o):
        return [norm(c, x) for c, x in zip(cells(self.spec['obs']), o)]

    def acted(self, ref, ep):
        """did this program act in the episode? None if rounding decides"""
        for o, a in zip(ep['obs'], ep['acts']):
            if not fits(self.spec['act'], ref.run(self.inputs(o)), a):
                return None if ref.risk else False
        return True

    def total(self, ep):
        return sum(ep['rewards'])

    def attempt(self, f):
        try:
            f()
            return True
        except Boom:
            if not self.v:
                self.stats['failed'] += 1
            return False

    def do_score(self):
        sp = self.spec
        CGP = im(P + 'pycgp.cgp').CGP
        ni, no = len(cells(sp['obs'])), len(cells(sp['act']))
        ev = im(P + 'cgp').SkDecideEvaluator(self.domain(), sp['limit'], 1)
        for self.n, op in enumerate(sp['ops']):
            if self.n % 3 == 2:
                ev = ev.clone()
            c = CGP.random(ni, no, sp['cols'], sp['rows'], library(sp['lib']), 1.0)
            ref = Ref(c.genome, ni, no, sp['cols'], sp['rows'], sp['lib'])
            self.arm = op['arm']
            was = len(self.episodes)
            got = []
            ok = self.attempt(lambda: got.append(float(ev.evaluate(c, self.n))))
            self.arm = None
            if self.v:
                return
            if not ok:
                self.faults['failing environment'] += 1
                continue
            ep, = self.episodes[was:]
            self.stats['evaluations'] += 1
            if len(ep['acts']) != sp['limit'] and not ep['done'] or len(ep['acts']) > sp['limit']:
                return self.fail('length', f'{len(ep["acts"])} steps of at most {sp["limit"]}, the episode was {"over" if ep["done"] else "not over"}')
            if not close(got[0], self.total(ep)):
                return self.fail('fitness', f'{got[0]}, the rewards were {ep["rewards"]}')
            if self.acted(ref, ep) is False:
                return self.fail('policy', 'the actions are not those of the program')

    def do_evolve(self):
        sp = self.spec
        CGP = im(P + 'pycgp.cgp').CGP
        ni, no = len(cells(sp['obs'])), len(cells(sp['act']))
        sizes = (ni, no, sp['cols'], sp['rows'], sp['lib'])
        start = None
        folder = None
        for self.n, op in enumerate(sp['ops'][:2]):
            if op['same'] or folder is None:
                folder = os.path.join(self.dir, f'f{self.n}')
            else:
                for f in os.listdir(folder):
                    if start is None or os.path.join(folder, f) != start:
                        os.remove(os.path.join(folder, f))
            if start is not None and not op['same'] and start.startswith(folder):
                os.replace(start, os.path.join(self.dir, 'start.txt'))
                start = os.path.join(self.dir, 'start.txt')
            s = im(P + 'cgp').CGPWrapper(folder, library=library(sp['lib']), col=sp['cols'], row=sp['rows'], nb_ind=sp['kids'], mutation_rate_nodes=op['nodes'],
                                         mutation_rate_outputs=op['outs'], n_cpus=sp['cpus'], n_it=op['k'], genome=start, verbose=False)
            first = Ref(CGP.load_from_file(start, library(sp['lib'])).genome, *sizes) if start else None
            self.episodes.clear()
            self.arm = op['arm']
            GD = im('skdecide.hub.domain.gym').GymDomain
            if not type(s).check_domain(self.domain()):
                return self.fail('domain', 'is not taken')
            ok = self.attempt(lambda: GD.solve_with(s, self.domain))
            self.arm = None
            if self.v:
                return
            self.faults['failing environment'] += not ok
            last = self.judge(folder, op, first, ok, sizes)
            if self.v:
                return
            if ok:
                self.query(s, last)
            if self.v:
                return
            if last is not None:
                start = last[0]

    def judge(self, folder, op, first, ok, sizes):
        sp = self.spec
        CGP = im(P + 'pycgp.cgp').CGP
        eps, kids = self.episodes, sp['kids']
        if ok and len(eps) != 1 + kids * op['k']:
            return self.fail('evaluations', f'{len(eps)} episodes for {op["k"]} generations of {kids}')
        over = lambda ep: ep['done'] and len(ep['rewards']) == len(ep['acts'])
        gens = [eps[:1]] + [eps[1 + kids * i:1 + kids * (i + 1)] for i in range(op['k'])]
        if not ok:
            # generations which were not completed leave nothing behind; what raised last might have been the one after the last
            while gens and (not gens[-1] or len(gens[-1]) < (1 if len(gens) == 1 else kids) or not all(map(over, gens[-1]))):
                gens.pop()
        if not gens:
            return None
        files = {}
        for f in os.listdir(folder):
            if f.startswith('cgp_genome_'):
                it, fit = f[len('cgp_genome_'):-len('.txt')].split('_')
                if int(it) in files:
                    return self.fail('files', f'two of generation {it}')
                files[int(it)] = (os.path.join(folder, f), float(fit))
        cur, lines, father = None, [], None
        for it, gen in enumerate(gens):
            best = max(self.total(ep) for ep in gen)
            up = cur is None or best >= cur - 1e-9
            if up:
                cur = best
                if it not in files:
                    return self.fail('files', f'none of generation {it}, which improved to {best}: {sorted(files)}')
                name, fit = files[it]
                if not close(fit, best):
                    return self.fail('files', f'generation {it} says {fit}, the best episode gave {best}')
                ref = Ref(CGP.load_from_file(name, library(sp['lib'])).genome, *sizes)
                bad = ref.valid()
                if bad:
                    return self.fail('genome', f'of generation {it}: {bad}')
                if it == 0 and first is not None and ref.genes != first.genes:
                    return self.fail('start', 'is not the program of the file')
                if father is not None:
                    diff = [j for j, (x, y) in enumerate(zip(father, ref.genes)) if x != y]
                    self.stats['genes changed'] += len(diff)
                    if not op['nodes'] and any(j < len(father) - ref.no for j in diff) or not op['outs'] and any(j >= len(father) - ref.no for j in diff):
                        return self.fail('mutation', f'{diff} changed with rates {op["nodes"]} and {op["outs"]}')
                father = ref.genes
                acted = []
                for ep in gen:
                    if close(self.total(ep), best):
                        r = Ref(ref.genes, *sizes)
                        acted.append((self.acted(r, ep), r))
                if all(a is False for a, r in acted):
                    return self.fail('files', f'the program of generation {it} is not one which earned {best}')
                last = (name, [r for a, r in acted if a is not False], ref)
                self.stats['improvements'] += it > 0
            elif it in files:
                return self.fail('files', f'one of generation {it}, whose best was {best} after {cur}')
            if it:
                lines.append((it, cur, up))
        if any(it >= len(gens) for it in files):
            return self.fail('files', f'{sorted(files)} after {len(gens)} generations')
        with open(os.path.join(folder, 'out.txt')) as f:
            got = [l.split('\t')[:3] for l in f.read().split('\n') if l.count('\t') >= 3]
        if [(int(a), c) for a, b, c in got] != [(it, str(up)) for it, cur, up in lines] or not all(close(float(b), l[1]) for (a, b, c), l in zip(got, lines)):
            return self.fail('log', f'{got} instead of {lines}')
        self.stats['generations'] += len(lines)
        return last

    def query(self, s, last):
        refs = last[1] + [last[2]]
        for q in range(4):
            obs = element(self.spec['obs'], lambda c: (hsh(self.spec['salt'], 'q', q) % c[1]) if c[0] == 'disc' else
                          min(c[2], max(c[1], hsh(self.spec['salt'], 'q', q, c[1]) % 9 / 4 - 1)))
            a = flat(self.spec['act'], s.get_next_action(obs))
            if a is None:
                return self.fail('action', 'of the policy is not of the space')
            o = flat(self.spec['obs'], obs)
            keep = []
            for r in refs:
                if fits(self.spec['act'], r.run(self.inputs(o)), a) or r.risk:
                    keep.append(r)
            if not keep:
                return self.fail('policy', f'acts {a} in {o}, the best program does not')
            refs = keep
            self.stats['queries'] += 1

    # -- random search
    def do_search(self):
        import numpy as np
        sp = self.spec
        ni, no = len(cells(sp['obs'])), len(cells(sp['act']))
        ARS = im('skdecide.hub.solver.ars.ars').AugmentedRandomSearch
        GD = im('skdecide.hub.domain.gym').GymDomain
        for self.n, op in enumerate(sp['ops'][:2]):
            s = ARS(n_epochs=op['k'], epoch_size=sp['limit'], directions=sp['kids'], top_directions=sp['top'], learning_rate=sp['rate'], policy_noise=sp['noise'])
            self.episodes.clear()
            self.arm = op['arm']
            ok = self.attempt(lambda: GD.solve_with(s, self.domain))
            self.arm = None
            if self.v:
                return
            if not ok:
                self.faults['failing environment'] += 1
                continue
            eps, n = self.episodes, sp['kids']
            if len(eps) != (2 * n + 1) * op['k']:
                return self.fail('episodes', f'{len(eps)} for {op["k"]} epochs of {n} directions')
            for ep in eps:
                if len(ep['acts']) > sp['limit'] or not ep['done'] and len(ep['acts']) != sp['limit']:
                    return self.fail('length', f'{len(ep["acts"])} steps of at most {sp["limit"]}')
            rng = np.random.RandomState(0)
            pol = np.zeros((no, ni))

            def follows(ep, p):
                for o, a in zip(ep['obs'], ep['acts']):
                    if not fits(sp['act'], [float(x) for x in p.dot(self.inputs(o))], a):
                        return False
                return True
            score = lambda ep: sum(max(-1, min(1, r)) for r in ep['rewards'] if not math.isnan(r))
            for e in range(op['k']):
                here = eps[(2 * n + 1) * e:(2 * n + 1) * (e + 1)]
                deltas = [2 * rng.random_sample(pol.shape) - 1 for _ in range(n)]
                for k in range(n):
                    if not follows(here[k], pol + sp['noise'] * deltas[k]):
                        return self.fail('exploration', f'epoch {e}, direction {k}: not the policy moved that way')
                    if not follows(here[n + k], pol - sp['noise'] * deltas[k]):
                        return self.fail('exploration', f'epoch {e}, direction {k}: not the policy moved the opposite way')
                up, down = [score(x) for x in here[:n]], [score(x) for x in here[n:2 * n]]
                sigma = np.array(up + down).std()
                order = sorted(range(n), key=lambda k: -max(up[k], down[k]))[:sp['top']]
                if sp['top'] and sigma > 1e-12:
                    pol = pol + sp['rate'] / (sp['top'] * sigma) * sum((up[k] - down[k]) * deltas[k] for k in order)
                    self.stats['updates'] += 1
                if not follows(here[2 * n], pol):
                    return self.fail('update', f'epoch {e}: the policy is not moved along the best directions')
                self.stats['epochs'] += 1
            for q in range(3):
                obs = element(sp['obs'], lambda c: (hsh(sp['salt'], 'q', q) % c[1]) if c[0] == 'disc' else min(c[2], max(c[1], hsh(sp['salt'], 'q', q, c[1]) % 9 / 4 - 1)))
                a = flat(sp['act'], s.sample_action(obs))
                if a is None or not fits(sp['act'], [float(x) for x in pol.dot(self.inputs(flat(sp['obs'], obs)))], a):
                    return self.fail('policy', f'acts {a} in {flat(sp["obs"], obs)}')
                self.stats['queries'] += 1


class Programs(Harness):
    runs = {'quick': 4000, 'thorough': 200000}
    real = ['Cartesian genetic programs, their evolution and their evaluation, augmented random search, the Gym domain and its spaces, run unmodified',
            'genome and log files in a scratch folder']
    stub = ['the Gym environments: generated', 'joblib processors: a seeded scheduler switches between workers at every call of the environment',
            'numbers at random: seeded generators']

    def gen(self, rng, tier):
        kind = rng.choice(['program', 'program', 'score', 'evolve', 'evolve', 'search'])
        lib = rng.sample(sorted(LIB), rng.choice([1, 2, 4, 8, 21]))
        if rng.random() < .5:
            lib = [f for f in lib if f not in STEPS] or ['sum']
        sp = {'kind': kind, 'salt': rng.randrange(1 << 30), 'lib': lib, 'cols': rng.choice([1, 2, 3, 6, 12]), 'rows': rng.choice([1, 1, 1, 2, 3]),
              'act': gen_space(rng), 'obs': gen_space(rng), 'long': rng.choice([1, 2, 4, 8]), 'limit': rng.choice([1, 2, 5, 1000]),
              'spread': rng.choice([1, 2, 4, 9]), 'memory': rng.random() < .7, 'nan': kind == 'search' and rng.random() < .15,
              'kids': rng.choice([1, 2, 3, 4]), 'cpus': rng.choice([1, 1, 2, 3]), 'rate': rng.choice([.02, .5, 2.]), 'noise': rng.choice([.03, .5, 1.])}
        sp['top'] = rng.randint(0, sp['kids']) if rng.random() < .3 else sp['kids'] - (rng.random() < .5) * (sp['kids'] > 1)
        if kind == 'program':
            sp['ni'], sp['no'] = rng.choice([1, 2, 3, 5]), rng.choice([1, 1, 2, 3])
        rates = [0., .1, .3, .7, 1.]
        sp['ops'] = [{'do': rng.choice(['run', 'run', 'run', 'mutate', 'genes', 'clone', 'save', 'print', 'draw', 'chance']), 'i': rng.randrange(10), 'same': rng.random() < .5,
                      'k': rng.choice([1, 2, 3, 5]), 'nodes': rng.choice(rates), 'outs': rng.choice(rates),
                      'arm': rng.choice([0, 1, 3, 8, 20, 50]) if rng.random() < .25 else None}
                     for _ in range(rng.choice([1, 2, 4, 8, 15]))]
        return sp

    def execute(self, spec, record=False):
        r = ProgramRun(spec, record)
        r.go()
        return Outcome(r.v, dict(r.stats), dict(r.faults), r.h.hexdigest(), r.steps, r.now, sum(r.stats.values()) > 0, None, r.log)

    def shrink(self, spec):
        for ops in drop_each(spec['ops'], 1):
            yield {**spec, 'ops': ops}
        for k, v in (('cols', 1), ('rows', 1), ('kids', 1), ('cpus', 1), ('long', 1), ('limit', 1)):
            if spec[k] > v and (k != 'kids' or spec['top'] <= 1):
                yield {**spec, k: v}
        for i, op in enumerate(spec['ops']):
            if op['arm'] is not None:
                yield {**spec, 'ops': spec['ops'][:i] + [{**op, 'arm': None}] + spec['ops'][i + 1:]}
            if op['k'] > 1:
                yield {**spec, 'ops': spec['ops'][:i] + [{**op, 'k': 1}] + spec['ops'][i + 1:]}


CHECKS = {'C42': Programs()}
