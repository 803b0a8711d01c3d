"""Whole-system simulation of the parallel domains: caller threads, worker processes, pipes, manager, shared
memory, notification sockets - one kernel, one seed."""
import copy
import gc
import itertools
import logging
import os
import random
import shutil
import tempfile

import multiprocess
import multiprocessing
import threading
import time

import pynng

import skdecide.domains as SD
import skdecide.builders.solver.parallelability as SP

from harness import ptypes as PT
from sim.kernel import Chooser, Kernel, HarnessError, SimKill
from sim.patch import Patcher
from sim.simmp import SimMP, SimPush0, SimConnection
from sim.simthreading import SimTime, make_threading

QUIET = logging.getLogger('verif.quiet')
QUIET.addHandler(logging.NullHandler())
QUIET.propagate = False
QUIET.setLevel(logging.CRITICAL + 1)

MP_NAMES = ['Process', 'Array', 'Value', 'RawArray', 'RawValue', 'Condition', 'Lock', 'RLock', 'Event', 'Semaphore',
            'BoundedSemaphore', 'Pipe', 'Manager', 'Queue', 'SimpleQueue', 'JoinableQueue', 'cpu_count',
            'current_process', 'active_children', 'get_context']
TH_NAMES = ['Lock', 'RLock', 'Condition', 'Event', 'Semaphore', 'BoundedSemaphore', 'Thread']
TM_NAMES = ['sleep', 'time', 'perf_counter', 'monotonic', 'process_time', 'time_ns', 'perf_counter_ns', 'monotonic_ns']

SCRATCH = None


def scratch():
    global SCRATCH
    if SCRATCH is None or not os.path.isdir(SCRATCH):
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        SCRATCH = tempfile.mkdtemp(prefix='verif-par-', dir=base)
        import atexit
        atexit.register(shutil.rmtree, SCRATCH, True)
    return SCRATCH


class NS:
    def __init__(self, **kw):
        self.__dict__.update(kw)


_UNIQ = itertools.count()


def fresh_dir():
    d = os.path.join(scratch(), f'run{next(_UNIQ)}')
    os.mkdir(d)
    return d


def make_kernel(spec, record=False):
    tr = spec.get('trace')
    if tr is not None:
        ch = Chooser(trace=tr, fair_after=spec.get('fair_after', 5000))
    else:
        ch = Chooser(rng=random.Random(f"sched:{spec['sched_seed']}"), fair_after=spec.get('fair_after', 5000))
    k = Kernel(ch, max_steps=spec.get('max_steps', 30000), record=record)
    k.ipc = {}
    k.ipc_hook = None
    return k


def install(p, k, tmpdir, slots=None):
    mp = SimMP(k)
    if slots:
        for cls in (SD.ParallelDomain, SD.PipeParallelDomain, SD.ShmParallelDomain):
            f = cls.__init__
            p.set(f, '__defaults__', tuple(slots if type(d) is int else d for d in (f.__defaults__ or ())))
    mods = [SD, SP]
    tm = SimTime(k)
    for real in (multiprocess, multiprocessing):
        p.replace(mods, real, mp, MP_NAMES)
    p.replace(mods, threading, make_threading(k), TH_NAMES)
    p.replace(mods, time, tm, TM_NAMES)
    SimPush0.kernel = k
    p.replace(mods, pynng, NS(Push0=SimPush0), ['Push0'])
    p.set(SD, 'logger', QUIET)
    import copy as _c
    for cls in (SD.ParallelDomain, SD.PipeParallelDomain, SD.ShmParallelDomain):
        def cp(x, memo):
            y = cls_new(x)
            memo[id(x)] = y
            for a, v in x.__dict__.items():
                y.__dict__[a] = _c.deepcopy(v, memo)
            return y
        cls_new = lambda x: object.__new__(type(x))
        _c._deepcopy_dispatch[cls] = cp
    names = (f'sim{i:06d}' for i in itertools.count())
    p.set(tempfile, '_name_sequence', names)
    p.set(tempfile, 'tempdir', tmpdir)
    return mp


class Run:
    """One execution of a scenario. `violations` is a list of (class, detail)."""

    def __init__(self, spec, record=False):
        self.spec = spec
        self.k = make_kernel(spec, record)
        self.violations = []
        self.stats = {}
        self.holders = {}
        self.history = []
        self.last_result = {}
        self.started = 0
        self.waits = 0

    def bad(self, cls, detail):
        self.k.event(f'VIOLATION {cls}')
        self.violations.append((cls, detail))

    def stat(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    # ---- building
    def build(self, mp):
        s = self.spec
        k = self.k
        self.tr = s['transport']
        self.regs = s.get('regs')
        crash = s.get('crash') or {}
        hooks = self.domain_hook

        counter = [0]

        def factory():
            t = k.current
            d = PT.SimDomain(k, self.tr, self.regs, hooks)
            d._slot = t.proc._id if t is not None and t.proc is not None else None
            for _ in range(s.get('slow_start', 0)):
                k.point('factory')
            if d._slot is not None and d._slot in s.get('factory_crash', []):
                k.crash_current('worker crash during start-up')
            if d._slot is not None and d._slot in s.get('factory_fail', []):
                k.fault('domain factory raises in the worker')
                raise RuntimeError('factory failed')
            return d
        self.factory = factory
        n = s['slots']
        if s.get('solver'):
            return None
        if self.tr == 'pipe':
            return SD.PipeParallelDomain(factory, lambdas=PT.lambdas(), nb_domains=n, ipc_notify=s.get('notify', False))
        return SD.ShmParallelDomain(factory, PT.ShmProxy(mp, self.regs), lambdas=PT.lambdas(), nb_domains=n,
                                    ipc_notify=s.get('notify', False))

    def domain_hook(self, dom, where):
        s = self.spec
        for c in s.get('crash', []):
            if c['slot'] == dom._slot and not c.get('fired'):
                if dom._n >= c['call'] and not where.endswith('<'):
                    c['_seen'] = c.get('_seen', 0) + 1
                    if c['_seen'] >= c['at']:
                        c['fired'] = True
                        self.k.crash_current('worker crash in domain code')

    # ---- clients
    def issue(self, pd, cl, op, slot):
        """Issue one request. Returns (slot, expected) or None when the launch is reported as failed."""
        m = op['m']
        args = [PT.build(a) for a in op['args']]
        ref_args = [PT.build(a) for a in op['args']]
        snapshot = [PT.build(a) for a in op['args']]
        via = op['via']
        style = cl['style']
        i = slot
        k = self.k
        if style == 'wake':
            i = pd.wake_up_domain()
            self.take(i, cl)
        k.event(f'call {m} via {via} i={i}')
        if via == 'wrapper':
            r = getattr(pd, m)(*args, i=i) if i is not None or op.get('ikw') else getattr(pd, m)(*args)
        elif via == 'generic':
            r = getattr(pd, m)(*args, i=i)
        elif via == 'call':
            r = pd.call(i, PT.LAMBDAS.index(m), *args)
        else:
            r = pd.launch(i, m, *args)
        ok = self.sendable(m, args)
        self.stat('requests')
        if not ok:
            self.stat('unsendable requests')
            self.k.fault('request that cannot be transmitted')
            if r is not None:
                self.bad('unsendable-accepted', f'{m}{args} could not be transmitted but launch returned {r!r}')
            if style == 'wake':
                self.free(i, cl)
            return None
        if r is None:
            self.bad('request-refused', f'{m}{args} on slot {i}: launch returned None without cause')
            return None
        if isinstance(r, bool) or not isinstance(r, int) or not 0 <= r < self.spec['slots'] or (i is not None and r != i):
            self.bad('bad-slot', f'{m} on slot {i}: launch returned {r!r} of {self.spec["slots"]} slots')
            return None
        if style != 'wake':
            self.take(r, cl)
        for a, b in zip(args, snapshot):
            if not PT.same(a, b):
                self.bad('argument-mutated', f'{m}: caller argument became {a!r}')
        ref = self.refs[r]
        exp, why = PT.expected(ref, self.tr, self.regs, m, ref_args)
        if why != 'ok':
            self.k.fault('domain method raises' if why.startswith('raised') else why)
        self.sent[r] = self.sent.get(r, 0) + 1
        self.outcomes.setdefault(r, []).append(why)
        return r, exp, why, m

    def sendable(self, m, args):
        if self.tr == 'pipe':
            return not PT.contains_unsendable(args)
        return len(m) <= 100 and PT.shm_capacity_ok(self.regs, args)

    def take(self, slot, cl):
        if slot in self.holders:
            self.bad('slot-shared', f'slot {slot} handed to client {cl["id"]} while client {self.holders[slot]} '
                                    f'still holds it')
        self.holders[slot] = cl['id']
        if len(self.holders) > self.stats.get('max slots held', 0):
            self.stats['max slots held'] = len(self.holders)

    def free(self, slot, cl):
        if self.holders.get(slot) == cl['id']:
            del self.holders[slot]

    def collect(self, pd, cl, out):
        slot, exp, why, m = out
        k = self.k
        s = self.spec
        if s.get('notify') and cl.get('pull'):
            self.await_note(pd, slot, why)
        self.free(slot, cl)
        self.last_slot = slot
        r = pd.get_result(slot)
        k.event(f'got {slot}')
        self.stat('results')
        if why == 'ok':
            if not PT.same(r, exp):
                self.bad('wrong-result', f'{m} on slot {slot} ({self.tr}): got {r!r}, expected {exp!r}')
        else:
            self.stat('failed requests')
            if r is not None:
                self.bad('failure-returned-data', f'{m} on slot {slot} ({self.tr}) failed ({why}) but yielded {r!r}')
        if cl.get('relaunch_none'):
            pass

    def await_note(self, pd, slot, why):
        addr = pd.get_ipc_connections()[slot]
        want = self.sent[slot]
        k = self.k
        k.block(lambda: len(k.ipc.get(addr, ())) >= want, f'pull {slot}')

    def client(self, pd, cl):
        def body():
            outstanding = []
            try:
                rr = itertools.cycle(cl.get('own') or [None])
                for op in cl['ops']:
                    kind = op['op']
                    if kind == 'think':
                        for _ in range(op['n']):
                            self.k.point('think')
                    elif kind == 'stop':
                        break
                    elif kind == 'collect':
                        if outstanding:
                            self.collect(pd, cl, outstanding.pop(op['k'] % len(outstanding)))
                    else:
                        if len(outstanding) >= cl['batch']:
                            self.collect(pd, cl, outstanding.pop(op.get('k', 0) % len(outstanding)))
                        slot = None
                        if cl['style'] == 'own':
                            busy = {o[0] for o in outstanding}
                            free = [x for x in cl['own'] if x not in busy]
                            slot = free[op.get('k', 0) % len(free)]
                        o = self.issue(pd, cl, op, slot)
                        if o is not None:
                            if op.get('abandon'):
                                self.abandoned.append((o[0], cl['id']))
                                cl['own'] = [x for x in (cl.get('own') or []) if x != o[0]]
                                if cl['style'] == 'own' and not cl['own']:
                                    break
                                continue
                            outstanding.append(o)
                if not cl.get('leave_pending'):
                    while outstanding:
                        self.collect(pd, cl, outstanding.pop(0))
                else:
                    self.pending_left += len(outstanding)
            except HarnessError:
                raise
            except Exception as e:
                self.client_exception(cl, e)
        return body

    def client_exception(self, cl, e):
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if '/skdecide/' in f.filename]
        self.bad('api-exception', f'client {cl["id"]}: {type(e).__name__}: {str(e)[:120]} in '
                                  f'{where[-1].name if where else tb[-1].name}')

    # ---- the run
    def main(self, mp):
        s = self.spec
        pd = self.pd = self.build(mp)
        k = self.k
        rounds = s.get('rounds') or [s['clients']]
        for ri, clients in enumerate(rounds):
            self.refs = {i: PT.SimDomain(None, self.tr, self.regs) for i in range(s['slots'])}
            self.holders = {}
            self.sent = {}
            self.outcomes = {}
            self.abandoned = []
            self.pending_left = 0
            k.ipc.clear()
            base = len(k.procs)
            self.base_proc = base
            start = s['start']
            exc = s.get('exit_exception')
            if start == 'with':
                pd.__enter__()
            elif start == 'explicit':
                pd._launch_processes()
            else:
                # lazily, by a first request from this (single) thread
                cl = {'id': 'first', 'style': 'auto', 'ops': [], 'batch': 1}
                try:
                    o = self.issue(pd, cl, {'op': 'req', 'via': 'launch', 'm': 'echo', 'args': s['first_args']}, None)
                    if o is not None:
                        self.collect(pd, cl, o)
                except HarnessError:
                    raise
                except Exception as e:
                    self.client_exception(cl, e)
            addrs = list(pd.get_ipc_connections())
            ts = []
            for cl in clients:
                ts.append(k.spawn(self.client(pd, cl), f'C{cl["id"]}', daemon=bool(cl.get('may_hang'))))
            need = [t for t, cl in zip(ts, clients) if not cl.get('may_hang') and not cl.get('close_races')]
            k.block(lambda: all(t.done for t in need), 'await clients')
            self.check_notes(addrs)
            if s.get('close', True):
                try:
                    if start == 'with':
                        a = (RuntimeError, RuntimeError('body failed'), None) if exc else (None, None, None)
                        pd.__exit__(*a)
                    else:
                        pd.close()
                    if s.get('double_close'):
                        pd.close()
                except HarnessError:
                    raise
                except Exception as e:
                    import traceback
                    tb = [f for f in traceback.extract_tb(e.__traceback__) if '/skdecide/' in f.filename]
                    self.bad('close-exception', f'{type(e).__name__}: {str(e)[:120]} in {tb[-1].name if tb else "?"}')
                self.closed_ok(pd, base)
        self.finished = True

    # ---- through the solver helper
    def main_solver(self, mp):
        s, k = self.spec, self.k
        par = s['parallel']
        self.build(mp)
        n = s['slots']
        proxy = PT.ShmProxy(mp, self.regs) if self.tr == 'shm' else None
        sol = SP.ParallelSolver(self.factory, parallel=par, shared_memory_proxy=proxy)
        sol._lambdas = PT.lambdas()
        sol._ipc_notify = s.get('notify', False) and par
        eff = self.tr if par else 'pipe'
        if not par:
            self.tr = 'pipe'
            self.regs = None
        for ri, clients in enumerate(s['rounds']):
            base = len(k.procs)
            self.refs = {i: PT.SimDomain(None, self.tr, self.regs) for i in range(n)}
            self.abandoned, self.pending_left, self.sent, self.outcomes = [], 0, {}, {}
            self.holders = {}
            if s['start'] != 'lazy':
                sol._initialize()
            dom = sol.get_domain()
            if dom is None or dom is not sol.get_domain():
                self.bad('get-domain', f'get_domain returned {type(dom).__name__}, then a different object')
            if par != isinstance(dom, SD.ParallelDomain):
                self.bad('get-domain', f'parallel={par} but get_domain gave a {type(dom).__name__}')
            if par and dom.get_parallel_capacity() != n:
                self.bad('get-domain', f'capacity {dom.get_parallel_capacity()} instead of {n}')
            ts = [k.spawn(self.solver_client(sol, cl, par), f'C{cl["id"]}') for cl in clients]
            k.block(lambda: all(t.done for t in ts), 'await clients')
            if par:
                for j in range(min(s.get('pending', 0), n)):    # requests nobody will collect
                    self.stat('requests')
                    dom.launch(j, 'slow')
            try:
                (sol.close if s.get('double_close') else sol._cleanup)()
                if s.get('double_close'):
                    sol.close()
            except Exception as e:
                self.bad('close-exception', f'{type(e).__name__}: {str(e)[:120]}')
            if par:
                self.closed_ok(dom, base)
            else:
                sol = SP.ParallelSolver(self.factory, parallel=par, shared_memory_proxy=proxy)
                sol._lambdas = PT.lambdas()
        self.finished = True

    def solver_client(self, sol, cl, par):
        def body():
            k = self.k
            try:
                for op in cl['ops']:
                    if op['op'] == 'think':
                        for _ in range(op['n']):
                            k.point('think')
                        continue
                    if op['op'] != 'req':
                        continue
                    m = op['m']
                    args = [PT.build(a) for a in op['args']]
                    ref_args = [PT.build(a) for a in op['args']]
                    self.stat('requests')
                    if not par:
                        exp, why = PT.expected(self.refs[0], 'seq', None, m, ref_args) if False else (None, None)
                        self.seq_call(sol, m, args, ref_args)
                        continue
                    ok = self.sendable(m, args)
                    if not ok:
                        continue
                    try:
                        r = sol.call_domain_method(m, *args)
                    except HarnessError:
                        raise
                    except Exception as e:
                        self.client_exception(cl, e)
                        return
                    self.stat('results')
                    self.match_any(m, args, r)
            except HarnessError:
                raise
        return body

    def seq_call(self, sol, m, args, ref_args):
        ref = self.refs[0]
        try:
            exp = ('value', getattr(ref, m)(*ref_args))
        except Exception as e:
            exp = ('raised', type(e).__name__)
            self.k.fault('domain method raises')
        try:
            got = ('value', sol.call_domain_method(m, *args))
        except HarnessError:
            raise
        except Exception as e:
            got = ('raised', type(e).__name__)
        self.stat('results')
        if got[0] != exp[0] or (got[1] != exp[1] if got[0] == 'raised' else not PT.same(got[1], exp[1])):
            self.bad('wrong-result', f'sequential {m}: got {got!r}, expected {exp!r}')

    def match_any(self, m, args, r):
        """The helper hides which slot served the call: the answer must be the next answer of some slot."""
        seen = []
        for i, ref in self.refs.items():
            trial = PT.SimDomain(None, self.tr, self.regs)
            trial._n = ref._n
            exp, why = PT.expected(trial, self.tr, self.regs, m, copy.deepcopy(args))
            if why != 'ok':
                self.k.fault('domain method raises' if why.startswith('raised') else why)
            if PT.same(r, exp):
                if self.k_concurrent():
                    return
                ref._n = trial._n
                return
            seen.append(exp)
        if self.k_concurrent():
            for n in range(1, 400):
                trial = PT.SimDomain(None, self.tr, self.regs)
                trial._n = n - 1
                exp, why = PT.expected(trial, self.tr, self.regs, m, copy.deepcopy(args))
                if PT.same(r, exp):
                    return
        self.bad('wrong-result', f'call_domain_method({m}, {args}) gave {r!r}; no slot would: {seen!r}'[:400])

    def k_concurrent(self):
        return self.spec.get('threads', 1) > 1

    def check_notes(self, addrs):
        s, k = self.spec, self.k
        if not s.get('notify'):
            if any(k.ipc.values()):
                self.bad('unexpected-notification', 'a message was pushed although notifications are off')
            return
        for i in range(s['slots']):
            msgs = [m for _, m in k.ipc.get(addrs[i], [])]
            outs = self.outcomes.get(i, [])
            self.stat('notifications', len(msgs))
            crashed = any(c['slot'] == i for c in s.get('crash', []))
            if crashed or (i, ) in [(a[0],) for a in self.abandoned] or self.pending_left:
                continue
            if len(msgs) != len(outs):
                self.bad('notification-count', f'slot {i}: {len(outs)} requests, {len(msgs)} notifications')
                continue
            for j, (m, o) in enumerate(zip(msgs, outs)):
                if (m == b'0') != (o == 'ok'):
                    self.bad('notification-content', f'slot {i} request {j}: outcome {o}, notified {m!r}')

    def closed_ok(self, pd, base):
        k = self.k
        alive = [p._name for p in k.procs if p._task is not None and not p._ended]
        if alive:
            self.bad('worker-left-running', f'after close: {alive}')
        left = sorted(os.listdir(self.tmp))
        if left:
            self.bad('temp-file-left', f'after close: {left}')
        ipc = [a for a in pd.get_ipc_connections() if a is not None]
        if ipc:
            self.bad('ipc-left-open', f'after close: {len(ipc)} addresses still published')
        conns = [c for c in k.parent_conns if not c._closed]
        if conns:
            self.bad('connection-left-open', f'after close: {len(conns)} parent pipe ends open')
        self.stat('closes')

    def execute(self):
        s = self.spec
        k = self.k
        self.tmp = fresh_dir()
        for c in s.get('crash', []):
            c.pop('fired', None)
            c.pop('_seen', None)
        self.finished = False
        gc_was = gc.isenabled()
        gc.disable()
        saved_dispatch = dict(copy._deepcopy_dispatch)
        with Patcher() as p:
            mp = install(p, k, self.tmp, s['slots'] if s.get('solver') else None)
            self.faulter(mp)

            def body():
                try:
                    (self.main_solver if s.get('solver') else self.main)(mp)
                except (HarnessError, SimKill):
                    raise
                except Exception as e:
                    import traceback
                    tb = traceback.extract_tb(e.__traceback__)
                    where = [f for f in tb if '/skdecide/' in f.filename]
                    if not where:
                        raise
                    self.bad('api-exception', f'main: {type(e).__name__}: {str(e)[:120]} in {where[-1].name}')
                    self.finished = True
            t = k.spawn(body, 'main')
            out = k.run()
        copy._deepcopy_dispatch.clear()
        copy._deepcopy_dispatch.update(saved_dispatch)
        for c in k.parent_conns:
            c._drop()
        if gc_was:
            gc.enable()
        for t in k.tasks:
            if t.error is not None and t.proc is None:
                raise HarnessError(f'{t.name}: {type(t.error).__name__}: {t.error}') from t.error
        for pr in k.procs:
            if isinstance(getattr(pr, 'error', None), HarnessError):
                raise pr.error
        if out == 'deadlock':
            self.bad('hang', f'no runnable task: {", ".join(k.deadlock_info)} blocked forever')
        elif out == 'step-limit':
            self.bad('hang', f'no progress within {k.max_steps} steps ({s.get("fair_after", 5000)} of them random): '
                             f'{", ".join(k.deadlock_info)}')
        for c in s.get('crash', []):
            c.pop('fired', None)
            c.pop('_seen', None)
        self.pd = None
        shutil.rmtree(self.tmp, ignore_errors=True)
        return self

    def faulter(self, mp):
        """Faults placed at scheduling points: spurious wake-ups, stalled tasks."""
        s, k = self.spec, self.k
        rate = s.get('spurious', 0.0)
        stalls = list(s.get('stalls', []))
        jumps = s.get('jumps', 0.0)     # the machine stands still for a while: pending timeouts expire
        if not rate and not stalls and not jumps:
            return
        rng = random.Random(f"faults:{s['fault_seed']}")
        live = {}
        for st in stalls:
            live.setdefault(st['task'], []).append(st)

        def hook(t, label):
            if k.teardown:
                return
            if rate and rng.random() < rate:
                for c in k.conditions:
                    if c.spurious():
                        k.fault('spurious wake-up')
                        break
            if jumps and rng.random() < jumps:
                k.now += rng.choice([0.3, 5.0, 90.0])
                k.fault('long pause')
            for st in live.get(t.name, ()):
                if t.ops == st['at']:
                    t.suspended = k.steps + st['len']
                    k.fault('stalled task')
        k.on_yield = hook
