"""Everything nondeterministic the library could reach, replaced before it is imported.

Installed in every forked child: locks, threads, clocks, random numbers, the XML parser
constructor (only where a run injects parser faults), and the garbage collector (automatic
collection off; the plan decides).
"""
import _thread
import gc
import os
import random
import sys
import threading
import time
import datetime

from . import kernel as K

_real_excepthook = sys.excepthook


def _k():
    return K.current


class SimLock:
    """threading.Lock whose waiting is decided by the simulator."""

    def __init__(self):
        self._locked = False
        self._owner = None
        self._waiters = []

    def acquire(self, blocking=True, timeout=-1):
        k = _k()
        if not self._locked:
            self._locked = True
            self._owner = k.cur if k else None
            return True
        if not blocking:
            return False
        if k is None or k.cur is None:
            raise RuntimeError("simulated lock: would wait for ever outside the simulation")
        t = k.cur
        deadline = None if timeout is None or timeout < 0 else k.time() + timeout
        while self._locked:
            self._waiters.append(t)
            woken = k.block(deadline)
            if t in self._waiters:
                self._waiters.remove(t)
            if not woken and self._locked:
                return False
        self._locked = True
        self._owner = t
        return True

    def release(self):
        if not self._locked:
            raise RuntimeError("release unlocked lock")
        self._locked = False
        self._owner = None
        k = _k()
        ws, self._waiters = self._waiters, []
        for w in ws:
            k.wake(w)

    def locked(self):
        return self._locked

    def _at_fork_reinit(self):
        self.__init__()

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class SimRLock:
    def __init__(self):
        self._block = SimLock()
        self._owner = None
        self._count = 0

    @staticmethod
    def _me():
        k = _k()
        return k.cur if k and k.cur is not None else "main"

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if self._owner is me:
            self._count += 1
            return True
        if self._block.acquire(blocking, timeout):
            self._owner = me
            self._count = 1
            return True
        return False

    def release(self):
        if self._owner is not self._me():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._block.release()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self.__init__()

    def _recursion_count(self):
        return self._count if self._owner is self._me() else 0

    def _acquire_restore(self, state):
        self._block.acquire()
        self._count, self._owner = state

    def _release_save(self):
        state = (self._count, self._owner)
        self._count, self._owner = 0, None
        self._block.release()
        return state

    def _is_owned(self):
        return self._owner is self._me()


def _sleep(secs):
    k = _k()
    if k is None or k.cur is None:
        return
    k.count("simulated sleep")
    if secs <= 0:
        k.yield_now()
        return
    k.block(k.time() + secs)


def _start_new_thread(fn, args=(), kwargs=None):
    """A thread the library starts becomes a simulated task."""
    k = _k()
    if k is None or k.cur is None:
        return _real_start(fn, args, kwargs or {})
    k.count("thread started by library")

    def body(t):
        fn(*args, **(kwargs or {}))
    t = k.spawn(body, (), "spawned")
    return 100000 + t.id


_real_start = _thread.start_new_thread


def _install_threads():
    threading.Lock = SimLock
    threading._allocate_lock = SimLock
    threading.RLock = SimRLock
    threading._RLock = SimRLock
    threading._CRLock = SimRLock
    _thread.allocate_lock = SimLock
    _thread.allocate = SimLock
    _thread.RLock = SimRLock
    _thread.start_new_thread = _start_new_thread
    _thread.start_new = _start_new_thread
    threading._start_new_thread = _start_new_thread
    threading.get_ident = _thread.get_ident

    def _wait_tstate(self, block=True, timeout=-1):
        k = _k()
        if k is None or k.cur is None:
            return
        while not getattr(self, "_sim_done", False):
            if not block:
                return
            w = self.__dict__.setdefault("_sim_waiters", [])
            w.append(k.cur)
            if not k.block(None if timeout is None or timeout < 0 else k.time() + timeout):
                return
        self._is_stopped = True
    threading.Thread._wait_for_tstate_lock = _wait_tstate
    threading.Thread._set_tstate_lock = lambda self: setattr(self, "_tstate_lock", None)
    orig_inner = threading.Thread._bootstrap_inner

    def _bootstrap_inner(self):
        try:
            orig_inner(self)
        finally:
            self._sim_done = True
            self._is_stopped = True
            k = _k()
            for w in self.__dict__.get("_sim_waiters", []):
                k.wake(w)
    threading.Thread._bootstrap_inner = _bootstrap_inner
    threading.Thread.is_alive = lambda self: self._started.is_set() and not getattr(self, "_sim_done", False)
    import queue
    queue.SimpleQueue = queue._PySimpleQueue


class SimDateTime(datetime.datetime):
    @classmethod
    def now(cls, tz=None):
        return cls.fromtimestamp(_time(), tz)

    @classmethod
    def utcnow(cls):
        return cls.fromtimestamp(_time(), datetime.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.fromtimestamp(_time())


_base = [1_700_000_000.0]


def _time():
    k = _k()
    return k.time() if k is not None else _base[0]


def _install_clock():
    time.time = _time
    time.monotonic = lambda: _time() - 1_600_000_000.0
    time.perf_counter = lambda: _time() - 1_600_000_000.0
    time.process_time = lambda: _time() - 1_699_999_999.0
    time.thread_time = time.process_time
    time.time_ns = lambda: int(_time() * 1e9)
    time.monotonic_ns = lambda: int(time.monotonic() * 1e9)
    time.perf_counter_ns = time.monotonic_ns
    time.process_time_ns = lambda: int(time.process_time() * 1e9)
    time.thread_time_ns = time.process_time_ns
    time.sleep = _sleep
    datetime.datetime = SimDateTime
    threading._time = time.monotonic


def _install_random(seed):
    rng = random.Random(seed)
    os.urandom = lambda n: rng.randbytes(n)
    random._urandom = os.urandom
    random.seed(seed)


def install(seed=0):
    gc.disable()
    _install_threads()
    _install_clock()
    _install_random(seed)
    # everything the library's normal path imports lazily is loaded beforehand
    import xml.dom.minidom, xml.dom.expatbuilder, xml.parsers.expat  # noqa


# --------------------------------------------------------------- parser seam
class ParserSeam:
    """The XML parser as a simulated peer: counts attempts and fails them as planned.

    `outcomes[i]` for attempt i: None (real parser answers), or a fault.  A fault named
    `early:*` strikes before any input is consumed, `mid:*` after half of the document was
    fed, `late:*` after the real parse succeeded.
    """

    LIMIT = 60

    def __init__(self, outcomes=(), default=None):
        self.outcomes = list(outcomes)
        self.default = default
        self.attempts = []        # one entry per Parse of a whole document
        self.raised = []
        self.inputs = []

    def install(self):
        import xml.parsers.expat as expat
        seam = self
        real_create = expat.ParserCreate

        class Proxy:
            __slots__ = ("_p",)

            def __init__(self, p):
                object.__setattr__(self, "_p", p)

            def __getattr__(self, name):
                return getattr(self._p, name)

            def __setattr__(self, name, value):
                setattr(self._p, name, value)

            def Parse(self, data, isfinal=False):
                return seam.parse(self._p, data, isfinal)

        def ParserCreate(*a, **kw):
            return Proxy(real_create(*a, **kw))
        expat.ParserCreate = ParserCreate
        self._undo = lambda: setattr(expat, "ParserCreate", real_create)
        return self

    def uninstall(self):
        self._undo()

    def make(self, spec, data):
        from xml.parsers.expat import ExpatError, ErrorString
        if spec.startswith("expat:"):
            _, code, col = spec.split(":")
            code, col = int(code), int(col)
            col = col % (len(data) + 1)
            e = ExpatError(f"{ErrorString(code)}: line 1, column {col}")
            e.code, e.lineno, e.offset = code, 1, col
            return e
        return K.make_exc(spec)

    def parse(self, p, data, isfinal):
        if not isfinal:
            return p.Parse(data, isfinal)
        i = len(self.attempts)
        if i >= self.LIMIT:
            k = K.current
            if k is not None:
                k.fatal("too-many-parses", f"more than {self.LIMIT} parse attempts in one conversion")
            raise AssertionError("parse limit")
        spec = self.outcomes[i] if i < len(self.outcomes) else self.default
        self.attempts.append("open")
        self.inputs.append(len(data))
        if spec is None:
            try:
                r = p.Parse(data, isfinal)
            except BaseException as e:
                self.attempts[i] = "real:" + type(e).__name__
                self.raised.append(e)
                raise
            self.attempts[i] = "ok"
            return r
        when, what = spec.split("/", 1)
        k = K.current
        if k is not None:
            k.count("parser:" + what.split(":")[0] + "@" + when)
            k.log("parser", i, spec)
        if when == "mid":
            try:
                p.Parse(data[: len(data) // 2], False)
            except BaseException:
                pass
        elif when == "late":
            try:
                p.Parse(data, isfinal)
            except BaseException:
                pass
        e = self.make(what, data)
        self.attempts[i] = "fault:" + what
        self.raised.append(e)
        raise e
