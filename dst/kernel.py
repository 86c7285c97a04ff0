"""Deterministic scheduler.

Simulated threads ("tasks") are real Python threads parked on private locks; exactly one of
them holds the baton.  The running task is observed at every line or every bytecode
instruction of the library (and at every line of the standard library's xml package, which
it calls); these are the *events*.  The plan says, per task and per task-local event number,
what happens there: pass the baton, raise an exception, run a nested conversion, collect
garbage, jump the clock.  Nothing else can make the baton move, apart from a task that
finishes or blocks on a simulated lock, and then the successor is fixed by rule.  So an
execution is a pure function of (plan, code).
"""
import _thread
import gc
import hashlib
import os
import re
import sys

from . import monitor, repo

_real_lock = _thread.allocate_lock
_real_start = _thread.start_new_thread
XML_PREFIX = monitor.XML_PREFIX
STALL_WAIT = 0.5        # simulated seconds

current = None          # the running Kernel of this process, if any


class Interrupted(BaseException):
    """Stand-in for a task-cancellation class outside the Exception hierarchy."""


class DeadlineExceeded(Exception):
    """Stand-in for a time limit raised by a signal handler (an Exception, as in common use)."""


def make_exc(kind):
    if kind == "cancelled":
        import asyncio
        return asyncio.CancelledError("injected")
    return {
        "keyboard": KeyboardInterrupt, "exit": SystemExit, "custom": Interrupted,
        "deadline": DeadlineExceeded, "timeout": TimeoutError, "memory": MemoryError,
        "recursion": RecursionError, "genexit": GeneratorExit, "value": ValueError,
        "key": KeyError, "attr": AttributeError, "runtime": RuntimeError, "index": IndexError,
        "type": TypeError, "stopit": StopIteration, "oserror": OSError,
    }[kind]("injected")


class Task:
    __slots__ = ("id", "fn", "lock", "state", "n", "next_n", "actions", "ai", "deadline",
                 "timed_out", "error", "injected", "fired", "depth", "op_floor", "name", "armed", "armed_op", "giver")

    def __init__(self, id, fn, actions, name=""):
        self.id = id
        self.fn = fn
        self.lock = _real_lock()
        self.lock.acquire()
        self.state = "ready"
        self.n = 0
        self.actions = actions
        self.ai = 0
        self.next_n = actions[0][0] if actions else 1 << 60
        self.deadline = None
        self.timed_out = False
        self.error = None
        self.injected = []
        self.fired = []
        self.depth = 0
        self.armed = False
        self.armed_op = False
        self.op_floor = 0
        self.name = name
        self.giver = None


class Kernel:
    def __init__(self, gran="line", budget=3_000_000, record=False, on_fatal=None, nested=None):
        self.gran = gran
        self.budget = budget
        self.record = record          # dry run: remember the location of every event
        self.locs = []
        self.loc_ids = {}             # (id of code object, position) -> number, in order of first appearance
        self.codes = {}
        self.tasks = []
        self.cur = None
        self.now = 1_700_000_000.0
        self.tick = 1e-6
        self.main = _real_lock()
        self.main.acquire()
        self.on_fatal = on_fatal
        self.nested = nested
        self.switches = 0
        self.trace = hashlib.blake2b(digest_size=16)
        self.itl = hashlib.blake2b(digest_size=12)     # interleaving signature: switch locations only
        self.log_lines = []
        self.keep_log = False
        self.skipped_import = 0
        self.fault_counts = {}
        self.lifo = False             # a task that ends gives the baton back to the one that woke it
        self.probes = {}
        self.stall_wait = 0.0         # simulated time others have waited while one is stalled
        self.started = None           # called when every thread exists, before the first one runs

    # ------------------------------------------------------------------ log
    def log(self, *a):
        line = " ".join(str(x) for x in a)
        self.trace.update(line.encode("utf-8", "backslashreplace") + b"\n")
        if self.keep_log:
            self.log_lines.append(line)

    def steps(self):
        return sum(t.n for t in self.tasks)

    def time(self):
        return self.now + self.steps() * self.tick

    # ------------------------------------------------------------ scheduling
    def spawn(self, fn, actions=(), name=""):
        t = Task(len(self.tasks), fn, [a for a in actions], name)
        self.tasks.append(t)
        if self.cur is not None:          # started from inside a simulated thread
            _real_start(self._body, (t,))
        return t

    def run(self, first=0):
        global current
        current = self
        for t in list(self.tasks):
            _real_start(self._body, (t,))
        if self.started:
            self.started()
        t = self.tasks[first % len(self.tasks)]
        self.cur = t
        t.lock.release()
        self.main.acquire()
        self.cur = None
        for t in self.tasks:
            if t.error is not None:
                raise t.error

    def _body(self, t):
        t.lock.acquire()
        try:
            t.fn(t)
        except BaseException as e:      # harness code inside fn handles library outcomes itself
            t.error = e
        t.state = "done"
        self.log("done", t.id, t.n)
        g = t.giver
        nxt = g if self.lifo and g is not None and g.state == "ready" else self._next(t)
        if nxt is None:
            self.cur = None
            self.main.release()
            return
        self.cur = nxt
        nxt.lock.release()

    def _next(self, t):
        """Successor by rule: the next ready task in cyclic order; else the earliest timer."""
        k = len(self.tasks)
        for d in range(1, k + 1):
            u = self.tasks[(t.id + d) % k]
            if u.state == "ready":
                return u
        timed = [u for u in self.tasks if u.state == "blocked" and u.deadline is not None]
        if timed:
            u = min(timed, key=lambda x: (x.deadline, x.id))
            d = max(0.0, u.deadline - self.time())
            self.now += d
            if any(x.state == "stalled" for x in self.tasks):
                self.stall_wait += d
                if self.stall_wait > STALL_WAIT:
                    self.fatal("held-up", f"task {u.id} waits for a stalled conversion")
            u.state = "ready"
            u.timed_out = True
            return u
        blocked = [u for u in self.tasks if u.state == "blocked"]
        stalled = [u for u in self.tasks if u.state == "stalled"]
        if blocked and stalled:
            self.fatal("held-up", "waiting for a stalled conversion: " + ", ".join(f"task {u.id}" for u in blocked))
        if stalled:
            stalled[-1].state = "ready"      # the others are done: it may go on
            return stalled[-1]
        if blocked:
            self.fatal("waits-for-ever", "blocked for ever: " + ", ".join(f"task {u.id}" for u in blocked))
        return None

    def _switch(self, cur, target):
        self.switches += 1
        self.cur = target
        target.lock.release()
        cur.lock.acquire()

    def block(self, deadline=None):
        """Park the running task until woken; False when its deadline passed first."""
        t = self.cur
        t.state = "blocked"
        t.deadline = deadline
        t.timed_out = False
        self.log("block", t.id, t.n)
        nxt = self._next(t)
        if nxt is not t:
            self._switch(t, nxt)
        t.state = "ready"
        t.deadline = None
        return not t.timed_out

    def wake(self, t):
        if t.state == "blocked":
            t.state = "ready"
            t.timed_out = False

    def yield_now(self):
        """A voluntary yield (sleep(0))."""
        t = self.cur
        nxt = self._next(t)
        if nxt is not None and nxt is not t:
            self._switch(t, nxt)

    def fatal(self, kind, detail):
        self.log("fatal", kind)
        self.on_fatal(kind, detail)       # does not return
        os._exit(70)

    # ---------------------------------------------------------------- events
    def install_events(self):
        """Before the library is loaded: make its code report to this kernel."""
        sys.unraisablehook = self.unraisable
        if self.gran == "hook":
            self.install_hook()
            return
        k = self
        record, locs, ids, codes = self.record, self.locs, self.loc_ids, self.codes
        getframe = sys._getframe

        def event(code, pos):
            t = k.cur
            if t is None or not t.armed:
                return
            t.n = n = t.n + 1
            if record:
                locs.append(ids.setdefault((id(code), pos), len(ids)))
                codes[id(code)] = code
            if n >= t.next_n:
                k.fire(t, getframe(1))
        monitor.start(event)

    def arm(self, t):
        """Start observing the running task (at the start of each of its operations)."""
        t.op_floor = t.n
        self._set_next(t)
        t.armed = True

    def disarm(self, t):
        t.armed = False

    def unraisable(self, u):
        """An exception inside a finalizer is dropped by the interpreter, whatever the library does."""
        t, e = self.cur, u.exc_value
        if t is not None:
            for i, x in enumerate(t.injected):
                if x is e:
                    del t.injected[i]
                    self.count("exception dropped by the interpreter in a finalizer")
                    break

    def install_hook(self):
        """Granularity "hook": events come from the instrumented source."""
        import builtins
        k = self
        record, locs, ids, codes = self.record, self.locs, self.loc_ids, self.codes
        getframe = sys._getframe

        def hook():
            t = k.cur
            if t is None or not t.armed:
                return
            t.n = n = t.n + 1
            if record:
                f = getframe(1)
                locs.append(ids.setdefault((id(f.f_code), f.f_lasti), len(ids)))
                codes[id(f.f_code)] = f.f_code
            if n >= t.next_n:
                k.fire(t, getframe(1))
        builtins.__dst_hook__ = hook

    def _set_next(self, t):
        n = t.actions[t.ai][0] if t.ai < len(t.actions) else 1 << 60
        t.next_n = min(n, t.op_floor + self.budget)

    def in_import(self, frame):
        f = frame
        while f is not None:
            c = f.f_code
            if c.co_name == "<module>" and c.co_filename.startswith(repo.PREFIX):
                return True
            if c.co_filename.startswith("<frozen importlib"):
                return True
            f = f.f_back
        return False

    def where(self, frame):
        fn = frame.f_code.co_filename
        if fn.startswith(repo.PREFIX):
            fn = fn[len(repo.PREFIX):]
        elif fn.startswith(XML_PREFIX):
            fn = "xml/" + fn[len(XML_PREFIX):]
        return f"{fn}:{frame.f_lineno}"

    def count(self, kind, n=1):
        self.fault_counts[kind] = self.fault_counts.get(kind, 0) + n

    def fire(self, t, frame):
        if t.n - t.op_floor >= self.budget:
            self.fatal("no-progress", f"conversion still running after {self.budget} steps")
        while t.ai < len(t.actions) and t.actions[t.ai][0] <= t.n:
            act = t.actions[t.ai]
            t.ai += 1
            self._set_next(t)
            kind, arg = act[1], act[2] if len(act) > 2 else None
            if kind == "sw":
                if self.in_import(frame):
                    self.skipped_import += 1
                    continue
                u = self.tasks[arg % len(self.tasks)] if arg is not None else None
                if u is None or u is t or u.state != "ready":
                    u = None
                    k = len(self.tasks)
                    for d in range(1, k):
                        w = self.tasks[(t.id + d) % k]
                        if w.state == "ready":
                            u = w
                            break
                if u is None:
                    continue
                where = self.where(frame)
                self.count("preemption")
                self.itl.update(f"{t.id}>{u.id}@{where};".encode())
                self.log("sw", t.id, t.n, where, "->", u.id)
                u.giver = t
                self._switch(t, u)
            elif kind == "stall":
                # nothing more from this task until every other one has come to its end
                if self.in_import(frame):
                    self.skipped_import += 1
                    continue
                u = next((x for d in range(1, len(self.tasks)) for x in [self.tasks[(t.id + d) % len(self.tasks)]] if x.state == "ready"), None)
                if u is None:
                    continue
                where = self.where(frame)
                self.count("stall")
                self.itl.update(f"{t.id}#@{where};".encode())
                self.log("stall", t.id, t.n, where)
                t.fired.append([t.n, "stall", where])
                t.state = "stalled"
                self._switch(t, u)
                if arg:
                    self.now += arg
            elif kind == "raise":
                where = self.where(frame)
                self.count("exception:" + arg)
                self.itl.update(f"{t.id}!{arg}@{where};".encode())
                self.log("raise", t.id, t.n, where, arg)
                e = make_exc(arg)
                t.injected.append(e)
                t.fired.append([t.n, arg, where])
                raise e
            elif kind == "nest":
                where = self.where(frame)
                self.count("reentrant call")
                self.itl.update(f"{t.id}^@{where};".encode())
                self.log("nest", t.id, t.n, where)
                t.fired.append([t.n, "nest", where])
                self.nested(t, arg, where)
            elif kind == "gc":
                self.count("gc")
                self.log("gc", t.id, t.n)
                gc.collect()
            elif kind == "clock":
                self.count("clock jump")
                self.log("clock", t.id, t.n, arg)
                self.now += arg
            elif kind == "purge":
                self.count("re cache purge")
                re.purge()
            else:
                raise AssertionError(kind)
