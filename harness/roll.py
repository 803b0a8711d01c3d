"""Rollouts on generated domains: what they call, in which order, when, what they return and what they leave on disk.

Time is the simulator's clock, the disk is a scratch directory with injected errors, domain and solver functions
take time and fail."""
import collections
import copy
import hashlib
import json
import logging
import os
import random

from harness import envdom as E
from harness.common import Harness, Outcome, drop_each
from harness.env import Inst, Run
from sim.clock import Clock
from sim.disk import Disk
from sim.patch import Patcher

LIMIT = 150     # transitions after which an endless episode is interrupted


class Interrupt(E.Boom):
    pass


class RollRun(Run):
    def touch(self):
        if self.mark is None:
            self.mark = self.clock.now

    def hook(self, dom, where):
        if where in ('render', 'applicable'):
            self.touch()
        self.clock.advance(self.rng.choice(self.spec['costs']))
        if where == 'transition':
            self.left -= 1
            if self.left < 0:
                self.boom = 'interrupt'
                raise Interrupt('interrupt')
        super().hook(dom, where)

    def execute(self):
        import skdecide.utils as U
        random.seed(self.spec['seed'])
        self.rng = random.Random(self.spec['seed'])
        self.clock = Clock()
        self.clock.read_cost = 1e-4
        self.disk = Disk(self.faults)
        self.slept = 0.0
        self.mark = None
        self.left = LIMIT
        logging.getLogger('skdecide.utils').disabled = True
        logging.getLogger('skdecide.utils').handlers = [logging.NullHandler()]
        with Patcher() as p:
            self.clock.install(p, [U])
            self.disk.install(p)
            self.clock.on_sleep = self.on_sleep
            try:
                return self.main(U)
            finally:
                self.disk.remove()

    def on_sleep(self, s):
        self.slept += s

    def main(self, U):
        self.U = U
        classes = [E.make(s, self.hook) for s in self.spec['classes']]
        self.its = []
        for i, c in enumerate(self.spec['insts']):
            it = Inst({**self.spec['classes'][c], **self.spec['own'][i]})
            it.view = None
            it.dom = classes[c](self.spec['own'][i])
            self.its.append(it)
        self.files = {}
        for n, o in enumerate(self.spec['ops']):
            self.n = n
            self.left = LIMIT
            it = self.its[o['i'] % len(self.its)]
            if o['op'] == 'roll':
                self.roll(it, o)
            elif o['op'] == 'jump':
                self.clock.skew += (o['r'] - 500) / 10
                self.faults['wall clock jumps'] += 1
            elif o['op'] == 'wait':
                self.clock.advance(o['r'] / 250)
            else:
                self.do(it, o)
            if self.v:
                break
            self.check_held()
            if self.v:
                break
        self.end = self.clock.now
        return self

    # -------------------------------------------------------------------------------------------- one rollout
    def record(self, it, ev):
        d = it.dom
        run = self

        def wrap(name, f, conv):
            def g(*a, **kw):
                run.touch()
                e = [name, run.mark, conv(a), None, None]
                ev.append(e)
                try:
                    e[3] = f(*a, **kw)
                except BaseException as x:
                    e[4] = x
                    raise
                finally:
                    if name != 'act':
                        run.mark = None
                return e[3]
            return g
        d.reset = wrap('reset', type(d).reset.__get__(d), lambda a: None)
        d.step = wrap('step', type(d).step.__get__(d), lambda a: copy.deepcopy(a[0]))
        if it.s['trans'] != 'env':
            d.set_memory = wrap('set', type(d).set_memory.__get__(d), lambda a: it.b.mem(a[0]))
        if it.s.get('render'):
            d.on_render = lambda m: ev.append(['render', run.clock.now, m, None, None])

        class Policy:
            def reset(self):
                pass

            def sample_action(self, observation):
                run.clock.advance(run.rng.choice(run.spec['costs']))
                run.hook_solver()
                return run.policy(it, observation)

            def is_policy_defined_for(self, observation):
                return True
        s = Policy()
        s.reset = wrap('sreset', s.reset, lambda a: None)
        s.sample_action = wrap('act', s.sample_action, lambda a: copy.deepcopy(a[0]))
        return s

    def unrecord(self, it):
        for n in ('reset', 'step', 'set_memory', 'on_render'):
            it.dom.__dict__.pop(n, None)

    def hook_solver(self):
        if self.arm is not None:
            if self.arm == 0:
                self.arm = None
                self.boom = 'solver'
                raise E.Boom('solver')
            self.arm -= 1

    def policy(self, it, o):
        return self.pick(it, E.H('policy', E.frz(o)))

    def roll(self, it, o):
        s, b, r = it.s, it.b, o['r']
        ev = []
        solver = self.record(it, ev)
        frm = None if o['mem'] is None or s['trans'] == 'env' else self.some_mem(it, o['mem'])
        if s['mem'] == 'less' or frm is None:
            frm = None
        mo = None if frm is None else self.mem_in(it, frm, o['mem'])
        if mo is not None and s['mem'] in ('hist', 'fin'):
            self.hold(mo, 'memory given to a rollout')
        fa = self.pick(it, r) if frm is not None and o['from_action'] else None
        episode = o['kind'] == 'episode'
        n = 1 if episode else o['n']
        save = None
        if o['save'] is not None and not episode and s['agent'] == 'single' and s['conc'] == 'seq' and \
                s['obs'] == 'full' and self.spec['disk']:
            save = os.path.join(self.disk.root, f'r{o["save"]}')
            self.arm_disk(o, save)
        kw = dict(solver=solver if o['solver'] else None, from_memory=mo, from_action=fa, num_episodes=n,
                  max_steps=o['max'], render=o['render'], max_framerate=o['rate'], verbose=o['verbose'],
                  save_result_directory=save)
        if save is None and o['r'] % 2:
            kw.pop('save_result_directory')
        before = self.disk.snapshot() if self.spec['disk'] else {}
        self.arm, self.boom, self.slept = o.get('boom'), None, 0.0
        err = out = None
        self.stats['rollouts'] += 1
        try:
            out = (self.U.rollout_episode if episode else self.U.rollout)(it.dom, **kw)
        except E.Boom as x:
            err = x
            self.faults[f'function raises: {self.boom}'] += 1
        except OSError as x:
            err = x
        except Exception as x:
            import traceback
            tb = traceback.extract_tb(x.__traceback__)[-1]
            self.fail('raises', f'op {self.n} rollout: {type(x).__name__}: {x} ({tb.filename.split("/")[-1]}:{tb.name})')
            return
        finally:
            self.arm = None
            disk_err = [k for k in ('mkdir', 'open', 'write', 'close') if k in self.disk.arm]
            armed, self.disk.arm, self.disk.before_mkdir = disk_err, {}, None
            self.unrecord(it)
        eps = self.episodes(it, o, ev, n, frm, fa, err, out if episode else None)
        if self.v:
            return
        if save is not None:
            self.saved(it, o, eps, n, save, out, err, before)
        elif err is not None and not isinstance(err, E.Boom):
            self.fail('raises', f'op {self.n} rollout: {type(err).__name__}')
        elif self.spec['disk'] and self.disk.snapshot() != before:
            self.fail('files', f'op {self.n}: a rollout that is not saved changed files')

    def arm_disk(self, o, save):
        for k, (skip, j) in (o.get('disk') or {}).items():
            kinds = Disk.KINDS[k]
            self.disk.arm[k] = [skip, kinds[j % len(kinds)]]
        rival = o.get('rival')

        def before_mkdir(path, mkdir):
            if rival and self.rival_left:
                self.rival_left -= 1
                if not os.path.exists(path):
                    mkdir(path)
                    with open(os.path.join(path, 'foreign'), 'wb') as f:
                        f.write(b'x')
                    self.faults['another process creates the directory first'] += 1
        self.rival_left = rival or 0
        self.disk.before_mkdir = before_mkdir if rival else None

    # -------------------------------------------------------------------------------------------- its history
    def episodes(self, it, o, ev, n, frm, fa, err, lists):
        """Checks the recorded calls; returns the episodes [(observations, actions, values)] that were finished."""
        s, b = it.s, it.b
        where = f'op {self.n} rollout'
        has_render = o['render'] and s.get('render')
        renders = [e for e in ev if e[0] == 'render']
        if not has_render and renders:
            self.fail('render', f'{where}: rendered without being asked')
            return
        # cut into episodes: each opens with one reset (or memory) and one reset of the solver, in any order
        segs, opening, opened = [], False, set()
        for e in ev:
            if e[0] in ('reset', 'set', 'sreset'):
                kind = 'set' if e[0] == 'reset' else e[0]
                if not opening or kind in opened:
                    segs.append([])
                    opening, opened = True, set()
                opened.add(kind)
            else:
                opening = False
            if not segs:
                self.fail('order', f'{where}: {e[0]} before the episode started')
                return
            segs[-1].append(e)
        if len(segs) > n or err is None and len(segs) != n:
            self.fail('episodes', f'{where}: {len(segs)} episodes instead of {n} ({err!r})')
            return
        eps = []
        for k, seg in enumerate(segs):
            last = k == len(segs) - 1
            obs, acts, vals, steps, mems = [], [], [], [], []
            starts = [e[0] for e in seg if e[0] in ('reset', 'set', 'sreset')]
            failed = [e for e in seg if e[4] is not None]
            if failed and (not last or seg[-1] is not failed[0]):
                self.fail('after-failure', f'{where}: {failed[0][0]} failed and {seg[-1][0]} was called afterwards')
                return
            want = {'reset': frm is None, 'set': frm is not None, 'sreset': bool(o['solver'])}
            for w, x in want.items():
                if starts.count(w) != int(x) and not (failed and last and starts.count(w) < int(x)):
                    self.fail('start', f'{where}: episode {k} started with {starts}')
                    return
            done = False
            m = None
            for j, e in enumerate(seg):
                if e[0] == 'reset':
                    if e[4] is not None:
                        it.mem = None
                        break
                    x = b.state_of(e[3])
                    if E.frz(x) not in [E.frz(y) for y in self.support(b.initials())]:
                        self.fail('start', f'{where}: initial observation {e[3]}')
                        return
                    obs.append(e[3])
                    m = it.mem = () if s['mem'] == 'less' else (E.frz(x),)
                    mems.append(m)
                elif e[0] == 'set':
                    if e[2] != frm:
                        self.fail('start', f'{where}: episode {k} set memory {e[2]} instead of {frm}')
                        return
                    m = it.mem = frm
                    mems.append(m)
                elif e[0] == 'act':
                    if not obs:
                        st = self.state_obj(it, frm[-1])
                        if E.frz(e[2]) not in [E.frz(y) for y in self.support(b.obs(st, fa))]:
                            self.fail('observation', f'{where}: first observation {e[2]} of state {frm[-1]} after {fa}')
                            return
                        obs.append(e[2])
                    if done or len(acts) > len(vals):
                        self.fail('order', f'{where}: action asked for at the wrong time')
                        return
                    if E.frz(e[2]) != E.frz(obs[-1]):
                        self.fail('observation', f'{where}: solver was given {e[2]} instead of {obs[-1]}')
                        return
                    if e[4] is None:
                        acts.append(e[3])
                elif e[0] == 'step':
                    if done:
                        self.fail('order', f'{where}: step after the end of the episode')
                        return
                    if o['solver']:
                        if len(acts) != len(vals) + 1 or E.frz(e[2]) != E.frz(acts[-1]):
                            self.fail('action', f'{where}: step with {e[2]}, the solver chose {acts[-1:]}')
                            return
                    else:
                        acts.append(e[2])
                        ref = b.applicable(m)
                        one = lambda a, g: (a[0] if s['conc'] == 'par' else a) in g and \
                            (s['conc'] == 'seq' or len(a) == 1)
                        if not (all(one(e[2][g], ref[g]) for g in b.agents) if b.agents else one(e[2], ref)):
                            self.fail('action', f'{where}: random action {e[2]}, applicable {ref}')
                            return
                    if o['max'] is not None and len(vals) >= o['max']:
                        self.fail('steps', f'{where}: more than {o["max"]} steps')
                        return
                    steps.append(e[1])
                    if e[4] is not None:
                        break
                    st = self.outcome(it, where, m, acts[-1], e[3])
                    if self.v:
                        return
                    if not obs:
                        obs.append(None)     # first observation of a random walk from a memory: seen by nobody
                    m = it.mem = self.push(it, m, st)
                    mems.append(m)
                    obs.append(e[3].observation)
                    vals.append(e[3].value)
                    self.stats['steps'] += 1
                    self.h.update(repr(st).encode())
                    done = e[3].termination
                    if done:
                        self.stats['episodes terminated'] += 1
            ended = not failed and m is not None
            if not last or err is None:
                if not done and (o['max'] is None or len(vals) != o['max']):
                    self.fail('steps', f'{where}: episode {k} ended after {len(vals)} steps, limit {o["max"]}')
                    return
            if has_render and ended and (not last or not isinstance(err, E.Boom)):
                got = [e[2] for e in seg if e[0] == 'render']
                if got != mems:
                    self.fail('render', f'{where}: episode {k} rendered {got}, went through {mems}')
                    return
            if o['rate'] is not None:
                for t0, t1 in zip(steps, steps[1:]):
                    if t1 - t0 < 1 / o['rate'] - 1e-3:
                        self.fail('framerate', f'{where}: rounds begin {t1 - t0:.6f}s apart, at most {o["rate"]} per second')
                        return
            eps.append((obs, acts, vals, not (last and isinstance(err, E.Boom))))
            self.stats['episodes'] += 1
            self.stats['max episode'] = max(self.stats.get('max episode', 0), len(vals))
        total = sum(len(e[2]) for e in eps) + len(eps)
        if o['rate'] is None and self.slept > 0 or o['rate'] is not None and self.slept > total / o['rate'] + 1e-6:
            self.fail('framerate', f'{where}: slept {self.slept}s in {total} steps, rate {o["rate"]}')
        if lists is not None and err is None:
            obs, acts, vals, _ = eps[0]
            if not isinstance(lists, tuple) or len(lists) != 3:
                self.fail('result', f'{where}: returned {lists!r}')
                return eps
            got = [E.frz(x) for x in lists[0]]
            exp = [E.frz(x) for x in obs]
            if not obs:
                st = self.state_obj(it, frm[-1])
                ok = len(got) == 1 and got[0] in [E.frz(y) for y in self.support(b.obs(st, fa))]
            elif obs[0] is None:
                st = self.state_obj(it, frm[-1])
                ok = got[1:] == exp[1:] and got[0] in [E.frz(y) for y in self.support(b.obs(st, fa))]
            else:
                ok = got == exp
            if not ok or [E.frz(x) for x in lists[1]] != [E.frz(x) for x in acts] or list(lists[2]) != vals:
                self.fail('result', f'{where}: returned {lists}, went through {(obs, acts, vals)}')
        return eps

    # -------------------------------------------------------------------------------------------- its files
    def expect(self, it, ep, frm):
        obs, acts, vals, _ = ep
        if not obs or obs[0] is None:
            obs = [frm[-1]] + obs[1:]
        o = {str(i): x for i, x in enumerate(obs)}
        a = {str(i + 1): x for i, x in enumerate(acts)}
        t = {str(i + 1): {'s': hash(obs[i]), 'a': hash(acts[i]), 'cost': vals[i].cost, "s'": hash(obs[i + 1])}
             for i in range(len(vals))}
        return {'observations.json': o, 'actions.json': a, 'transitions.json': t}

    def complete(self, it, snap, d, exp):
        """what differs between the files of directory d and the episode"""
        for f, content in exp.items():
            if f == 'actions.json' and it.s.get('odd') and content:
                continue
            p = os.path.join(d, f)
            if p not in snap:
                return f'{p} is missing'
            try:
                got = json.loads(snap[p])
            except ValueError as e:
                return f'{p} is damaged: {e}'
            if got != content:
                return f'{p} holds {got} instead of {content}'
        return None

    def saved(self, it, o, eps, n, save, out, err, before):
        where = f'op {self.n}'
        snap = self.disk.snapshot()
        for p, c in before.items():
            if snap.get(p) != c:
                self.fail('overwritten', f'{where}: {p} written by an earlier rollout was changed or removed')
                return
        frm = None if o['mem'] is None or it.s['trans'] == 'env' or it.s['mem'] == 'less' else \
            self.some_mem(it, o['mem'])
        new = sorted({os.path.dirname(p) for p in snap if p not in before and not p.endswith('foreign')})
        if any(not (d + '/').startswith(os.path.basename(save) + '/') for d in new):
            self.fail('files', f'{where}: files outside the directory: {new}')
            return
        fin = [e for e in eps if e[3]]
        exps = [self.expect(it, e, frm) for e in fin]
        if err is not None and not isinstance(err, E.Boom):
            exps = exps[:-1]         # the failed one
            if not self.faults_hit(o):
                self.fail('raises', f'{where}: {type(err).__name__}: {str(err).replace(self.disk.root, "")}')
                return
            self.stats['saves failed'] += 1
        elif err is None:
            if n:
                if not isinstance(out, str) or not os.path.isdir(out) or \
                        os.path.relpath(out, self.disk.root) not in new:
                    self.fail('result', f'{where}: returned directory {str(out).replace(self.disk.root, "")}, new {new}')
                    return
                x = self.complete(it, snap, os.path.relpath(out, self.disk.root), exps[-1])
                if x:
                    self.fail('incomplete', f'{where}: returned directory: {x}')
                    return
        # each finished episode has a directory of its own
        left = list(new)
        for e in exps:
            d = next((d for d in left if self.complete(it, snap, d, e) is None), None)
            if d is None:
                self.fail('incomplete', f'{where}: an episode is not saved: '
                                        f'{[self.complete(it, snap, d, e) for d in left][:2]}')
                return
            left.remove(d)
            self.stats['episodes saved'] += 1
        if err is None and left:
            self.fail('files', f'{where}: unexpected directories {left}')

    def faults_hit(self, o):
        """whether one of the disk errors armed for this rollout was injected"""
        return sum(v for k, v in self.faults.items() if k.startswith('disk error')) > self.disk_before


def _roll(self, it, o):
    self.disk_before = sum(v for k, v in self.faults.items() if k.startswith('disk error'))
    RollRun.roll(self, it, o)


class RollRun2(RollRun):
    roll = _roll


OPS = ['roll'] * 6 + ['reset', 'step', 'set_memory', 'appl', 'render', 'fork', 'jump', 'wait']


def gen(rng, tier, disk):
    big = tier == 'thorough'
    classes = []
    for _ in range(rng.choice([1, 1, 2])):
        s = E.gen_spec(rng)
        if disk:
            s.update(agent='single', conc='seq', obs='full', n_states=rng.choice([3, 50, 1 << 28]),
                     odd=rng.random() < .15)
        classes.append(s)
    insts = [rng.randrange(len(classes)) for _ in range(rng.choice([1, 2]))]
    faulty = rng.random() < .6
    ops = []
    for _ in range(rng.randint(1, 14 if big else 8)):
        o = {'op': rng.choice(OPS), 'i': rng.randrange(6), 'r': rng.randrange(1000)}
        if o['op'] == 'roll':
            o.update(kind=rng.choice(['rollout', 'rollout', 'episode']), n=rng.choice([1, 1, 2, 3, 0]),
                     max=rng.choice([0, 1, 2, 5, 8, 12, None]), mem=rng.choice([None, rng.randrange(1000)]),
                     from_action=rng.random() < .5, render=rng.random() < .7, solver=rng.random() < .7,
                     rate=rng.choice([None, None, 10., 2., 60.]), verbose=rng.random() < .2,
                     save=rng.choice([None, 0, 0, 1]) if disk else None)
            if disk:
                o['kind'] = 'rollout'
                if faulty and rng.random() < .4:
                    k = rng.choice(sorted(Disk.KINDS))
                    o['disk'] = {k: [rng.choice([0, 0, 1, 2, 3, 5, 9]) * (8 if k == 'write' else 1), rng.randrange(3)]}
                if rng.random() < .3:
                    o['rival'] = rng.randint(1, 3)
        if faulty and rng.random() < .3:
            o['boom'] = rng.randrange(12 if o['op'] == 'roll' else 3)
        ops.append(o)
    own = [{'salt': rng.randrange(1 << 30), 'maxlen': rng.randint(1, 4), 'n_actions': rng.randint(1, 4)} for _ in insts]
    return {'own': own, 'seed': rng.randrange(1 << 30), 'classes': classes, 'insts': insts, 'ops': ops, 'disk': disk,
            'views': [None for _ in insts], 'costs': rng.choice([[0.], [0., .05], [0., .01, .2, 2.]])}


class RollHarness(Harness):
    real = ['skdecide.utils.rollout / rollout_episode', 'skdecide.builders.domain and skdecide.core underneath']
    stub = ['domain and solver functions: generated', 'time and datetime: simulated clock', 'random: seeded']
    assumptions = ['domain functions are deterministic apart from the distributions they return']

    def __init__(self, disk):
        self.disk = disk
        self.runs = {'quick': 10000 if not disk else 6000, 'thorough': 250000 if not disk else 120000}
        self.rule = 'the calls a rollout makes are those of the requested episodes, in order and in time, and its ' \
                    'result is what happened' if not disk else \
            'every finished episode of a saved rollout is on disk, complete, in a directory of its own; nothing saved ' \
            'before is changed; a disk error is reported'
        if disk:
            self.stub = self.stub + ['disk: a scratch directory whose mkdir, open, write and close fail on demand']

    def gen(self, rng, tier):
        return gen(rng, tier, self.disk)

    def execute(self, spec, record=False):
        r = RollRun2(copy.deepcopy(spec)).execute()
        r.v = [(c, d.replace(r.disk.root, '')) for c, d in r.v]
        st = dict(r.stats)
        return Outcome(r.v, st, dict(r.faults), r.h.hexdigest(), st.get('steps', 0) + st.get('ops', 0), float(r.clock.now),
                       st.get('steps', 0) >= 2, None, r.log)

    def shrink(self, spec):
        for ops in drop_each(spec['ops']):
            yield {**spec, 'ops': ops}
        for i, o in enumerate(spec['ops']):
            def but(**kw):
                n = {**o, **kw}
                return {**spec, 'ops': spec['ops'][:i] + [{k: v for k, v in n.items() if v != '-'}] + spec['ops'][i + 1:]}
            for k in ('boom', 'disk', 'rival'):
                if k in o:
                    yield but(**{k: '-'})
            if o['op'] == 'roll':
                if o['n'] > 1:
                    yield but(n=o['n'] - 1)
                if o['max'] is None or o['max'] > 0:
                    yield but(max=2 if o['max'] is None else o['max'] - 1)
                for k, v in (('rate', None), ('render', False), ('mem', None), ('save', None), ('verbose', False)):
                    if o[k] != v:
                        yield but(**{k: v})
        if spec['costs'] != [0.]:
            yield {**spec, 'costs': [0.]}


CHECKS = {'C17': RollHarness(False), 'C18': RollHarness(True)}
