"""Controlled schedules: worker "processes" are threads of which exactly one runs at a time; at
each operation on shared state the running one may be suspended in favour of another.  The
multiprocessing primitives are replaced before the code under test is imported."""
import collections
import ctypes
import multiprocessing
import pickle
import random
import threading

import torch.multiprocessing

CODES = {"b": ctypes.c_byte, "B": ctypes.c_ubyte, "h": ctypes.c_short, "H": ctypes.c_ushort,
         "i": ctypes.c_int, "I": ctypes.c_uint, "l": ctypes.c_long, "L": ctypes.c_ulong,
         "q": ctypes.c_longlong, "Q": ctypes.c_ulonglong, "f": ctypes.c_float,
         "d": ctypes.c_double, "c": ctypes.c_char}


class Killed(BaseException):
    pass


class Deadlock(Exception):
    pass


class Sched:
    def __init__(self):
        self.reset([], 0, 0.3)

    def reset(self, prefix, seed, p):
        self.tasks = []
        self.prefix = list(prefix)
        self.rng = random.Random(seed)
        self.p = p
        self.cur = None
        self.last = None
        self.killed = False
        self.ret = threading.Semaphore(0)
        self.npoints = 0
        self.deadlocked = False
        self.limit = 200000
        self.forced = None  # {point number: worker}

    # called by workers ------------------------------------------------
    def point(self, blocked_on=None):
        t = self.cur
        if t is None or threading.current_thread() is not t.thread:
            return
        t.blocked_on = blocked_on
        self.ret.release()
        t.sem.acquire()
        if self.killed and not t.dying:
            t.dying = True
            raise Killed()

    # called by the parent ---------------------------------------------
    def runnable(self):
        return [t for t in self.tasks if t.alive and (
            t.blocked_on is None or t.blocked_on() or self.killed)]

    def pick(self, r):
        self.npoints += 1
        want = None
        if self.prefix:
            want = self.prefix.pop(0)
        elif self.forced is not None:
            want = self.forced.get(self.npoints)
        if want is not None:
            for t in r:
                if t.idx == want:
                    return t
        if self.last in r and (self.forced is not None or self.rng.random() >= self.p):
            return self.last
        return r[0] if self.forced is not None else self.rng.choice(r)

    def step(self):
        r = self.runnable()
        if not r:
            self.deadlocked = True
            self.killed = True
            r = [t for t in self.tasks if t.alive]
            if not r:
                return
        t = self.pick(r)
        self.cur = self.last = t
        if not t.started:
            t.started = True
            t.thread.start()
        else:
            t.sem.release()
        self.ret.acquire()
        self.cur = None

    def run_until(self, cond):
        n = 0
        while not cond():
            self.step()
            n += 1
            if n > self.limit:
                self.killed = True
                self.deadlocked = True


S = Sched()
on_exit = [None]


class Process:
    count = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self.target, self.args, self.kwargs = target, args, kwargs or {}
        self.exitcode = None
        self.alive = False
        self.started = False
        self.dying = False
        self.blocked_on = None
        self.daemon = daemon
        self.pid = 100000 + len(S.tasks)
        self.name = name or "p"
        self.sem = threading.Semaphore(0)
        self.thread = threading.Thread(target=self._main, daemon=True)
        self.idx = None

    def _main(self):
        code = 0
        try:
            self.target(*self.args, **self.kwargs)
        except Killed:
            code = -15
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else 1
        except BaseException as e:
            code = 1
            self.error = repr(e)[:300]
        self.exitcode = code
        self.alive = False
        if on_exit[0]:
            on_exit[0](self.idx, code, getattr(self, "error", ""))
        S.ret.release()

    def start(self):
        self.idx = len(S.tasks)
        self.alive = True
        S.tasks.append(self)

    def join(self, timeout=None):
        S.run_until(lambda: not self.alive)

    def is_alive(self):
        return self.alive

    def terminate(self):
        pass

    kill = terminate

    def close(self):
        pass


def me():
    return S.cur


class RLock:
    def __init__(self, *a, **k):
        self.owner = None
        self.n = 0

    def acquire(self, block=True, timeout=None):
        t = S.cur or "parent"
        S.point()
        while self.owner is not None and self.owner is not t:
            if not block:
                return False
            S.point(blocked_on=lambda: self.owner is None)
        self.owner = t
        self.n += 1
        return True

    def release(self):
        self.n -= 1
        if self.n == 0:
            self.owner = None
        S.point()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.n -= 1
        if self.n == 0:
            self.owner = None
        if a[0] is None:
            S.point()


class Lock(RLock):
    """Not reentrant; anyone may release it."""

    def acquire(self, block=True, timeout=None):
        S.point()
        while self.owner is not None:
            if not block:
                return False
            S.point(blocked_on=lambda: self.owner is None)
        self.owner = S.cur or "parent"
        self.n = 1
        return True


class Connection:
    def __init__(self):
        self.inbox = collections.deque()
        self.peer = None
        self.closed = False

    def send(self, obj):
        S.point()
        self.peer.inbox.append(pickle.dumps(obj))
        S.point()

    def poll(self, timeout=0.0):
        S.point()
        return bool(self.inbox) or self.peer.closed

    def recv(self):
        S.point()
        while not self.inbox:
            if self.peer.closed:
                raise EOFError
            S.point(blocked_on=lambda: self.inbox or self.peer.closed)
        return pickle.loads(self.inbox.popleft())

    def close(self):
        self.closed = True

    def fileno(self):
        return -1


def Pipe(duplex=True):
    a, b = Connection(), Connection()
    a.peer, b.peer = b, a
    return a, b


class Value:
    def __init__(self, typecode, *args, lock=True, **kw):
        ty = CODES[typecode] if isinstance(typecode, str) else typecode
        self._v = ty(*args)
        self._lock = RLock() if lock in (True, None) else (lock or RLock())

    @property
    def value(self):
        S.point()
        return self._v.value

    @value.setter
    def value(self, x):
        S.point()
        self._v.value = x

    def get_lock(self):
        return self._lock

    def get_obj(self):
        return self

    def acquire(self):
        return self._lock.acquire()

    def release(self):
        return self._lock.release()

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        return self._lock.__exit__(*a)


class Event:
    def __init__(self, *a, **k):
        self._f = False

    def is_set(self):
        S.point()
        return self._f

    def set(self):
        S.point()
        self._f = True

    def clear(self):
        S.point()
        self._f = False

    def wait(self, timeout=None):
        if timeout is None:
            while not self._f:
                S.point(blocked_on=lambda: self._f)
        else:
            S.point()
        return self._f


def install():
    for m in (multiprocessing, torch.multiprocessing):
        m.Process = Process
        m.Value = Value
        m.RawValue = lambda t, *a: Value(t, *a)
        m.Event = Event
        m.Lock = Lock
        m.Pipe = Pipe
        m.RLock = RLock
