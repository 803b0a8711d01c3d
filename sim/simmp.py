"""A simulated `multiprocessing`: same API surface as pathos.helpers.mp, every operation a scheduling
point of the kernel, process memory isolated by copying.

Only what the code under test could reasonably reach for is provided; asking for anything else raises
HarnessError rather than silently touching the real module.
"""
import copy
import ctypes
import types
import weakref
from collections import deque
from multiprocessing.sharedctypes import typecode_to_type

import dill

from sim.kernel import HarnessError, SimKill, current_task


# ------------------------------------------------------------------ locks
class SimLock:
    reentrant = False

    def __init__(self, k, name='lock'):
        self.k = k
        self.owner = None
        self.count = 0
        self.name = name

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise RuntimeError('Lock objects should only be shared between processes through inheritance')

    def _free(self, t):
        return self.owner is None or (self.reentrant and self.owner is t)

    def acquire(self, block=True, timeout=None, blocking=None):
        if blocking is not None:
            block = blocking
        t = current_task()
        if t is None:                       # harness code outside the run
            self.owner = self.owner or 'harness'
            self.count += 1
            return True
        if timeout is not None and timeout < 0:
            timeout = None
        if self._free(t):
            self.k.point(f'acq {self.name}')
            if self._free(t):
                self.owner = t
                self.count += 1
                return True
        if not block:
            return False
        if not self.k.block(lambda: self._free(t), f'acq- {self.name}', timeout):
            return False
        self.owner = t
        self.count += 1
        return True

    def _release(self):
        t = current_task()
        if t is not None and (t.killed or self.k.teardown):
            return
        if self.owner is None:
            raise ValueError('semaphore or lock released too many times')
        if self.reentrant and t is not None and self.owner is not t:
            raise AssertionError('attempt to release recursive lock not owned by thread')
        self.count -= 1
        if self.count <= 0:
            self.count = 0
            self.owner = None

    def release(self):
        self._release()
        t = current_task()
        if t is not None and not (t.killed or self.k.teardown):
            self.k.point(f'rel {self.name}')

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    reentrant = True


class SimSemaphore:
    def __init__(self, k, value=1, bound=None):
        self.k, self.value, self.bound = k, value, bound

    def __deepcopy__(self, memo):
        return self

    def acquire(self, block=True, timeout=None):
        self.k.point('sem acq')
        if self.value > 0:
            self.value -= 1
            return True
        if not block:
            return False
        if not self.k.block(lambda: self.value > 0, 'sem acq-', timeout):
            return False
        self.value -= 1
        return True

    def release(self, n=1):
        if self.bound is not None and self.value + n > self.bound:
            raise ValueError('semaphore released too many times')
        self.value += n
        self.k.point('sem rel')

    def get_value(self):
        return self.value

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        t = current_task()
        if t is not None and (t.killed or self.k.teardown):
            return
        self.release()


class SimCondition:
    def __init__(self, k, lock=None, name='cond'):
        self.k = k
        self._lock = lock if lock is not None else SimRLock(k, name)
        self.acquire = self._lock.acquire
        self.release = self._lock.release
        self.name = name
        self.waiters = []
        k.conditions.append(self)

    def __deepcopy__(self, memo):
        return self

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        return self._lock.__exit__(*a)

    def _check(self):
        t = current_task()
        if self._lock.owner is not t:
            raise AssertionError('must acquire() condition before using it')
        return t

    def wait(self, timeout=None):
        t = self._check()
        n = self._lock.count
        token = [False]
        self.waiters.append(token)
        self._lock.owner, self._lock.count = None, 0
        ok = True
        ok = self.k.block(lambda: token[0], f'wait {self.name}', timeout)
        if token in self.waiters:
            self.waiters.remove(token)
        lk = self._lock
        if lk.owner is not None:
            self.k.block(lambda: lk.owner is None, f'reacq {self.name}')
        lk.owner, lk.count = t, n
        return ok

    def wait_for(self, predicate, timeout=None):
        result = predicate()
        if result:
            return result
        end = None if timeout is None else self.k.now + timeout
        while not result:
            left = None
            if end is not None:
                left = end - self.k.now
                if left <= 0:
                    break
            self.wait(left)
            result = predicate()
        return result

    def notify(self, n=1):
        self._check()
        for token in self.waiters[:n]:
            token[0] = True
        del self.waiters[:n]
        self.k.point(f'notify {self.name}')

    def notify_all(self):
        self.notify(len(self.waiters))

    def spurious(self):
        """Fault: one waiter wakes although nobody notified it (allowed by the API contract)."""
        if self.waiters:
            self.waiters[0][0] = True
            del self.waiters[0]
            return True
        return False


class SimEvent:
    def __init__(self, k):
        self.k, self.flag = k, False

    def __deepcopy__(self, memo):
        return self

    def is_set(self):
        self.k.point('ev get')
        return self.flag

    def set(self):
        self.flag = True
        self.k.point('ev set')

    def clear(self):
        self.flag = False
        self.k.point('ev clr')

    def wait(self, timeout=None):
        if self.flag:
            self.k.point('ev wait')
            return True
        return self.k.block(lambda: self.flag, 'ev wait', timeout)


# ------------------------------------------------------------------ shared ctypes
def _ctype(t):
    return typecode_to_type.get(t, t)


class RawMixin:
    def __deepcopy__(self, memo):
        return self

    def _pt(self, op):
        if self._lk is not None:
            t = current_task()
            if t is not None and not self._lk._free(t):
                self.k.block(lambda: self._lk._free(t), f'{op} {self._name} (locked)')
                return
        self.k.point(f'{op} {self._name}')

    def get_obj(self):
        return self._obj

    def get_lock(self):
        if self._lk is None:
            raise AttributeError('get_lock')
        return self._lk

    def acquire(self, *a, **kw):
        return self.get_lock().acquire(*a, **kw)

    def release(self):
        return self.get_lock().release()

    def __enter__(self):
        return self.get_lock().__enter__()

    def __exit__(self, *a):
        return self.get_lock().__exit__(*a)


class SimValue(RawMixin):
    def __init__(self, k, typecode, *args, lk=None, name='v'):
        self.k = k
        self._obj = _ctype(typecode)(*args)
        self._lk = lk
        self._name = name

    @property
    def value(self):
        self._pt('get')
        return self._obj.value

    @value.setter
    def value(self, x):
        self._pt('set')
        self._obj.value = x


class SimArray(RawMixin):
    def __init__(self, k, typecode, size_or_init, lk=None, name='a'):
        self.k = k
        ct = _ctype(typecode)
        if isinstance(size_or_init, int):
            self._obj = (ct * size_or_init)()
        else:
            self._obj = (ct * len(size_or_init))(*size_or_init)
        self._lk = lk
        self._name = name

    def __len__(self):
        return len(self._obj)

    def __getitem__(self, i):
        self._pt(f'get[{_ix(i)}]')
        return self._obj[i]

    def __setitem__(self, i, v):
        self._pt(f'set[{_ix(i)}]')
        self._obj[i] = v

    def __getslice__(self, a, b):
        return self[a:b]

    @property
    def value(self):
        self._pt('get')
        return self._obj.value

    @value.setter
    def value(self, v):
        self._pt('set')
        self._obj.value = v

    @property
    def raw(self):
        self._pt('get')
        return self._obj.raw

    @raw.setter
    def raw(self, v):
        self._pt('set')
        self._obj.raw = v


def _ix(i):
    if isinstance(i, slice):
        return ':'.join('' if x is None else str(x) for x in (i.start, i.stop))
    return str(i)


# ------------------------------------------------------------------ pipes
class _End:
    """One end of a duplex pipe: an inbox and the number of open descriptors on it."""
    __slots__ = ('inbox', 'refs', 'peer', 'name')

    def __init__(self, name):
        self.inbox = deque()
        self.refs = 0
        self.peer = None
        self.name = name


class SimConnection:
    def __init__(self, k, end, readable=True, writable=True):
        self.k = k
        self._end = end
        self._closed = False
        self.readable, self.writable = readable, writable
        end.refs += 1
        if k.forking is None and (current_task() is None or current_task().proc is None):
            k.parent_conns.add(self)

    def __deepcopy__(self, memo):
        if self._closed:
            return self
        c = SimConnection(self.k, self._end, self.readable, self.writable)
        memo[id(self)] = c
        k = self.k
        if k.forking is not None:
            k.forking.append(c)
        return c

    def __reduce__(self):
        raise RuntimeError('pickling connections is not supported by the simulator')

    @property
    def closed(self):
        return self._closed

    def fileno(self):
        return id(self._end) % 1000 + 3

    def _chk(self):
        if self._closed:
            raise OSError('handle is closed')

    def send(self, obj):
        self._chk()
        data = dill.dumps(obj)
        self._put(('o', data))

    def send_bytes(self, buf, offset=0, size=None):
        self._chk()
        self._put(('b', bytes(buf)[offset:None if size is None else offset + size]))

    def _put(self, item):
        k = self.k
        k.point(f'send {self._end.name}')
        hook = k.send_hook
        if hook is not None:
            hook(self)
        if self._end.peer.refs <= 0:
            raise BrokenPipeError(32, 'Broken pipe')
        self._end.peer.inbox.append(item)

    def _get(self, what):
        self._chk()
        e = self._end
        if not e.inbox and e.peer.refs > 0:
            self.k.block(lambda: bool(e.inbox) or e.peer.refs <= 0, f'recv {e.name}')
        else:
            self.k.point(f'recv {e.name}')
        if not e.inbox:
            raise EOFError
        return e.inbox.popleft()

    def recv(self):
        kind, data = self._get('recv')
        return dill.loads(data)

    def recv_bytes(self, maxlength=None):
        return self._get('recv')[1]

    def poll(self, timeout=0.0):
        self._chk()
        e = self._end
        ready = lambda: bool(e.inbox) or e.peer.refs <= 0
        if ready() or (timeout is not None and timeout <= 0):
            self.k.point(f'poll {e.name}')
            return ready()
        return self.k.block(ready, f'poll {e.name}', timeout)

    def _drop(self):
        if not self._closed:
            self._closed = True
            self._end.refs -= 1

    def close(self):
        t = current_task()
        if t is not None and (t.killed or self.k.teardown):
            self._drop()
            return
        if not self._closed:
            self._drop()
            self.k.point(f'close {self._end.name}')

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __del__(self):
        try:
            self._drop()
        except Exception:
            pass


# ------------------------------------------------------------------ manager proxies
class SimListProxy:
    """Manager().list(): values cross a pickle boundary, every call is one round trip."""

    def __init__(self, k, init=()):
        self.k = k
        self._data = [dill.dumps(x) for x in init]

    def __deepcopy__(self, memo):
        return self

    def _rt(self, op):
        m = self.k.manager_alive
        self.k.point(f'mgr {op}')
        if not m():
            raise BrokenPipeError(32, 'Broken pipe')

    def __len__(self):
        self._rt('len')
        return len(self._data)

    def __getitem__(self, i):
        self._rt(f'get[{_ix(i)}]')
        r = self._data[i]
        if isinstance(i, slice):
            return [dill.loads(x) for x in r]
        return dill.loads(r)

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            d = [dill.dumps(x) for x in v]
        else:
            d = dill.dumps(v)
        self._rt(f'set[{_ix(i)}]')
        self._data[i] = d

    def append(self, v):
        d = dill.dumps(v)
        self._rt('append')
        self._data.append(d)

    def pop(self, i=-1):
        self._rt('pop')
        return dill.loads(self._data.pop(i))

    def extend(self, vs):
        d = [dill.dumps(v) for v in vs]
        self._rt('extend')
        self._data.extend(d)

    def index(self, v):
        self._rt('index')
        return [dill.loads(x) for x in self._data].index(v)

    def count(self, v):
        self._rt('count')
        return [dill.loads(x) for x in self._data].count(v)


class SimDictProxy:
    def __init__(self, k, init=()):
        self.k = k
        self._data = {kk: dill.dumps(v) for kk, v in dict(init).items()}

    __deepcopy__ = SimListProxy.__deepcopy__
    _rt = SimListProxy._rt

    def __len__(self):
        self._rt('len')
        return len(self._data)

    def __getitem__(self, i):
        self._rt('get')
        return dill.loads(self._data[i])

    def __setitem__(self, i, v):
        d = dill.dumps(v)
        self._rt('set')
        self._data[i] = d

    def __delitem__(self, i):
        self._rt('del')
        del self._data[i]

    def __contains__(self, i):
        self._rt('in')
        return i in self._data

    def get(self, i, default=None):
        self._rt('get')
        return dill.loads(self._data[i]) if i in self._data else default

    def pop(self, i, *default):
        self._rt('pop')
        r = self._data.pop(i, *[dill.dumps(d) for d in default])
        return dill.loads(r)

    def keys(self):
        self._rt('keys')
        return list(self._data)

    def values(self):
        self._rt('values')
        return [dill.loads(v) for v in self._data.values()]

    def items(self):
        self._rt('items')
        return [(kk, dill.loads(v)) for kk, v in self._data.items()]


class SimQueue:
    def __init__(self, k, maxsize=0):
        self.k, self.maxsize, self.q = k, maxsize or 0, deque()

    def __deepcopy__(self, memo):
        return self

    def put(self, v, block=True, timeout=None):
        import queue
        d = dill.dumps(v)
        self.k.point('q put')
        if self.maxsize and len(self.q) >= self.maxsize:
            if not block or not self.k.block(lambda: len(self.q) < self.maxsize, 'q put-', timeout):
                raise queue.Full
        self.q.append(d)

    def get(self, block=True, timeout=None):
        import queue
        self.k.point('q get')
        if not self.q:
            if not block or not self.k.block(lambda: bool(self.q), 'q get-', timeout):
                raise queue.Empty
        return dill.loads(self.q.popleft())

    def put_nowait(self, v):
        return self.put(v, False)

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        self.k.point('q empty')
        return not self.q

    def qsize(self):
        self.k.point('q size')
        return len(self.q)

    def close(self):
        pass

    def join_thread(self):
        pass

    def cancel_join_thread(self):
        pass


class SimManager:
    def __init__(self, mp):
        self._mp = mp
        self._k = mp._k

    def __deepcopy__(self, memo):
        return self

    def list(self, init=()):
        return SimListProxy(self._k, init)

    def dict(self, *a, **kw):
        return SimDictProxy(self._k, dict(*a, **kw))

    def Queue(self, maxsize=0):
        return SimQueue(self._k, maxsize)

    def Lock(self):
        return self._mp.Lock()

    def RLock(self):
        return self._mp.RLock()

    def Event(self):
        return self._mp.Event()

    def Condition(self, lock=None):
        return self._mp.Condition(lock)

    def Value(self, t, v):
        return self._mp.Value(t, v)

    def Array(self, t, v):
        return self._mp.Array(t, v)

    def Namespace(self, **kw):
        return types.SimpleNamespace(**kw)

    def shutdown(self):
        self._k.manager_up = False
        self._k.point('mgr shutdown')

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()


# ------------------------------------------------------------------ processes
class SimProcess:
    """Runs target in its own task; its arguments are copied at start(), as fork would."""

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        k = self._k = SimProcess._kernel
        self._target = target
        self._args = tuple(args)
        self._kwargs = dict(kwargs or {})
        self._id = len(k.procs)
        self._name = name or f'W{self._id}'
        self._daemon = bool(daemon)
        self._task = None
        self._closed = False
        self.exitcode_ = None
        self._conns = []
        self._inherited = []
        self._ended = False
        k.procs.append(self)

    def __deepcopy__(self, memo):
        return self

    @property
    def name(self):
        return self._name

    @name.setter
    def name(self, n):
        self._name = n

    @property
    def daemon(self):
        return self._daemon

    @daemon.setter
    def daemon(self, d):
        self._daemon = d

    def _chk(self):
        if self._closed:
            raise ValueError('process object is closed')

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        self._chk()
        if self._task is not None:
            raise AssertionError('cannot start a process twice')
        k = self._k
        if k.fork_hook is not None:
            k.fork_hook(self)
        k.forking = self._conns = []
        try:
            args, kwargs, target = isolate((self._args, self._kwargs, self._target), k)
        finally:
            k.forking = None
        passed = {id(c._end) for c in self._conns}
        self._inherited = [c._end for c in k.parent_conns if not c._closed and id(c._end) not in passed]
        for e in self._inherited:
            e.refs += 1
        self._target = self._args = self._kwargs = None
        run_override = type(self).run is not SimProcess.run
        if run_override:
            clone = isolate_obj(self)
            clone._target, clone._args, clone._kwargs = target, args, kwargs
            body = lambda: self._main(clone.run, (), {})
            del args, kwargs
        else:
            box = [target, args, kwargs]
            del args, kwargs, target

            def body():
                t, a, kw = box
                del box[:]
                self._main(t, a, kw)
        self._task = k.spawn(body, self._name, proc=self, daemon=True)
        k.point(f'fork {self._name}')

    def _main(self, target, args, kwargs):
        try:
            if target is not None:
                target(*args, **kwargs)
            code = 0
        except SimKill:
            raise
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        except BaseException as e:
            self.error = e
            self._k.event(f'proc-exc {type(e).__name__}')
            code = 1
        self.exitcode_ = code

    def _task_finished(self, t):
        self._end()
        if self.exitcode_ is None:
            self.exitcode_ = 1

    def _crashed(self, t):
        self.exitcode_ = -9
        self._end()

    def _end(self):
        if self._ended:
            return
        self._ended = True
        for c in self._conns:
            c._drop()
        for e in self._inherited:
            e.refs -= 1
        self._inherited = []

    def is_alive(self):
        self._chk()
        self._k.point('alive?')
        return self._task is not None and not self._ended

    @property
    def exitcode(self):
        self._chk()
        return self.exitcode_

    @property
    def pid(self):
        return None if self._task is None else 1000 + self._id

    ident = pid

    @property
    def sentinel(self):
        return self._id

    def join(self, timeout=None):
        self._chk()
        if self._task is None:
            raise AssertionError('can only join a started process')
        if self._ended:
            self._k.point(f'join {self._name}')
        else:
            self._k.block(lambda: self._ended, f'join {self._name}', timeout)

    def terminate(self):
        self._chk()
        self.kill()

    def kill(self):
        self._chk()
        if self._task is not None and not self._ended:
            self._task.crashed = True
            self._crashed(self._task)
            self.exitcode_ = -15
        self._k.point(f'kill {self._name}')

    def close(self):
        if self._task is not None and not self._ended:
            raise ValueError('Cannot close a process while it is still running. '
                             'You should first call join() or terminate().')
        self._closed = True


def isolate_obj(x, memo=None):
    memo = {} if memo is None else memo
    y = type(x).__new__(type(x))
    memo[id(x)] = y
    y.__dict__.update({kk: copy.deepcopy(v, memo) for kk, v in x.__dict__.items()})
    return y


def isolate(obj, k):
    """What a forked child sees: a private copy of everything except shared primitives."""
    return copy.deepcopy(obj)


class SimMP:
    """Stands in for the multiprocessing module."""

    def __init__(self, k):
        self._k = k
        self._n = 0
        k.conditions = []
        k.parent_conns = weakref.WeakSet()
        k.forking = None
        k.fork_hook = None
        k.send_hook = None
        k.manager_up = True
        k.manager_alive = lambda: k.manager_up
        SimProcess._kernel = k
        self.Process = SimProcess
        self.AuthenticationError = Exception
        self.TimeoutError = TimeoutError

    def __deepcopy__(self, memo):
        return self

    def _name(self, p):
        self._n += 1
        return f'{p}{self._n}'

    def Manager(self):
        return SimManager(self)

    SyncManager = Manager

    def Lock(self):
        return SimLock(self._k, self._name('L'))

    def RLock(self):
        return SimRLock(self._k, self._name('R'))

    def Semaphore(self, value=1):
        return SimSemaphore(self._k, value)

    def BoundedSemaphore(self, value=1):
        return SimSemaphore(self._k, value, value)

    def Condition(self, lock=None):
        return SimCondition(self._k, lock, self._name('C'))

    def Event(self):
        return SimEvent(self._k)

    def _lk(self, lock):
        if lock is False:
            return None
        if lock is True or lock is None:
            return SimRLock(self._k, self._name('r'))
        return lock

    def Value(self, typecode, *args, lock=True):
        return SimValue(self._k, typecode, *args, lk=self._lk(lock), name=self._name('v'))

    def RawValue(self, typecode, *args):
        return SimValue(self._k, typecode, *args, lk=None, name=self._name('v'))

    def Array(self, typecode, size_or_initializer, *, lock=True):
        return SimArray(self._k, typecode, size_or_initializer, lk=self._lk(lock), name=self._name('a'))

    def RawArray(self, typecode, size_or_initializer):
        return SimArray(self._k, typecode, size_or_initializer, lk=None, name=self._name('a'))

    def Pipe(self, duplex=True):
        n = self._name('p')
        a, b = _End(n + 'a'), _End(n + 'b')
        a.peer, b.peer = b, a
        if duplex:
            return SimConnection(self._k, a), SimConnection(self._k, b)
        return SimConnection(self._k, a, True, False), SimConnection(self._k, b, False, True)

    def Queue(self, maxsize=0):
        return SimQueue(self._k, maxsize)

    JoinableQueue = Queue
    SimpleQueue = Queue

    def cpu_count(self):
        return 4

    def current_process(self):
        t = current_task()
        p = t.proc if t is not None else None
        return p if p is not None else types.SimpleNamespace(name='MainProcess', pid=1, daemon=False)

    def active_children(self):
        return [p for p in self._k.procs if p._task is not None and not p._ended]

    def get_context(self, method=None):
        return self

    def get_start_method(self, allow_none=False):
        return 'fork'

    def set_start_method(self, *a, **kw):
        pass

    def freeze_support(self):
        pass

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise HarnessError(f'simulated multiprocessing has no {name}')


class SimPush0:
    """nng push socket: delivers to whoever pulls on the dialled address (k.ipc[address])."""

    def __init__(self, dial=None, listen=None, **kw):
        self.k = SimPush0.kernel
        self.addr = None
        self.closed = False
        if dial:
            self.dial(dial)
        if listen:
            self.listen(listen)

    def dial(self, address, block=None):
        self.addr = address
        self.k.point('nng dial')
        self.k.ipc.setdefault(address, [])

    listen = dial

    def send(self, data, block=True):
        if self.closed:
            raise Exception('Closed: object closed')
        if self.addr is None:
            raise Exception('not connected')
        if not isinstance(data, (bytes, bytearray, memoryview)):
            raise TypeError('data must be bytes')
        t = current_task()
        self.k.point('nng send')
        self.k.ipc.setdefault(self.addr, []).append((self.k.steps, bytes(data)))
        if self.k.ipc_hook is not None:
            self.k.ipc_hook(self.addr, bytes(data))

    def close(self):
        self.closed = True
        t = current_task()
        if t is not None and not (t.killed or self.k.teardown):
            self.k.point('nng close')

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
