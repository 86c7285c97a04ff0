"""One simulated deployment of the library: python3 <flags> envworker.py SRC IN_FD OUT_FD

Reads {"pre": [...], "ops": [[text, [setting...]]...]} and writes the outcomes.  Imports
nothing of the harness, so that interpreter flags and environment act on the library alone.
"""
import sys

SRC, IN_FD, OUT_FD = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])

import os
import json
import re
import gc

sys.path.insert(0, SRC)
sys.dont_write_bytecode = False
keep = []
clock = [None]
steps = []              # what the clock does between one read and the next
count = [0]
context = ["plain"]
late_now = [False]
in_thread = [False]


def install_clock():
    load("time", "datetime", "threading", "queue", "concurrent.futures.thread", "asyncio", "subprocess", "selectors")      # these keep the real clock
    import time, datetime
    real = datetime.datetime

    class D(real):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(clock[0], tz)

        @classmethod
        def utcnow(cls):
            return cls.fromtimestamp(clock[0], datetime.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.fromtimestamp(clock[0])

    class Date(datetime.date):
        @classmethod
        def today(cls):
            return cls.fromtimestamp(clock[0])
    datetime.datetime, datetime.date = D, Date

    def t():
        clock[0] += steps[count[0] % len(steps)] if steps else 1e-6
        count[0] += 1
        return clock[0]
    time.time = time.monotonic = time.perf_counter = time.process_time = time.thread_time = t
    time.time_ns = time.monotonic_ns = time.perf_counter_ns = time.process_time_ns = lambda: int(t() * 1e9)
    time.sleep = lambda s: None
    for name in ("localtime", "gmtime"):
        f = getattr(time, name)
        setattr(time, name, lambda s=None, f=f: f(t() if s is None else s))


def apply(s):
    try:
        change(s)
    except (OSError, ValueError, ImportError):
        pass         # a setting this system refuses


def load(*names):
    """Import what the harness itself needs, undisturbed by planned collector settings and hooks."""
    on, tr, pr = gc.isenabled(), sys.gettrace(), sys.getprofile()
    gc.disable()
    sys.settrace(None)
    sys.setprofile(None)
    for m in names:
        __import__(m)
    sys.setprofile(pr)
    sys.settrace(tr)
    if on:
        gc.enable()


def change(s):
    kind, arg = s[0], s[1] if len(s) > 1 else None
    if kind == "clock":
        if clock[0] is None:
            clock[0] = 1.7e9
            install_clock()
        clock[0] = arg
    elif kind == "clock-steps":
        if clock[0] is None:
            clock[0] = 1.7e9
            install_clock()
        steps[:] = arg
    elif kind == "context":
        context[0] = arg
    elif kind == "file":
        files = {"": arg[1]} if isinstance(arg[1], str) else arg[1]        # a file, or a folder of some
        try:
            for name, text in files.items():
                path = os.path.join(arg[0], name) if name else arg[0]
                os.makedirs(os.path.dirname(path), exist_ok=True)
                with open(path, "w", encoding="utf-8") as f:
                    f.write(text)
        except (FileExistsError, NotADirectoryError, IsADirectoryError):
            pass                   # another planned file is in the way
    elif kind == "pid":
        os.getpid = lambda: arg
    elif kind == "host":
        load("platform", "socket")
        import platform
        import socket
        socket.gethostname = platform.node = lambda: arg
    elif kind == "platform":
        load("platform", *STDLIB)
        import platform
        sys.platform, os.name, os.linesep, system = arg
        platform.system = lambda: system
        platform.machine = lambda: "riscv64"
        platform.python_implementation = lambda: "PyPy"
    elif kind == "random":
        import random
        random.seed(arg)
    elif kind == "consume-random":
        import random
        for _ in range(arg):
            random.random()
    elif kind == "gc-off":
        gc.disable()
    elif kind == "gc-threshold":
        gc.enable()
        gc.set_threshold(*arg)
    elif kind == "gc-freeze":
        gc.freeze()
    elif kind == "gc":
        gc.collect()
    elif kind == "re-purge":
        re.purge()
    elif kind == "ballast":
        keep.append([bytearray(17 + i % 480) for i in range(arg)])
    elif kind == "holes":
        xs = [[i] for i in range(arg)]
        keep.append(xs[::3])
    elif kind == "drop":
        keep.clear()
    elif kind == "locale":
        import locale
        try:
            locale.setlocale(locale.LC_ALL, arg)
        except locale.Error:
            pass
    elif kind == "chdir":
        os.chdir(arg)
    elif kind == "lost-cwd":
        os.mkdir(arg)
        os.chdir(arg)
        os.rmdir(arg)
    elif kind == "setenv":
        os.environ[arg[0]] = arg[1]
    elif kind == "unsetenv":
        os.environ.pop(arg, None)
    elif kind == "warnings":
        import warnings
        warnings.simplefilter(arg)
    elif kind == "recursionlimit":
        sys.setrecursionlimit(arg)
    elif kind == "switchinterval":
        sys.setswitchinterval(arg)
    elif kind == "umask":
        os.umask(arg)
    elif kind == "argv":
        sys.argv[:] = arg
    elif kind == "std":
        for name in arg:
            setattr(sys, name, None)
    elif kind == "close-std":
        for fd in arg:
            if fd not in (IN_FD, OUT_FD):
                try:
                    os.close(fd)
                except OSError:
                    pass
    elif kind == "thread":
        in_thread[0] = arg
    elif kind == "preload":
        load(*arg)
    elif kind == "decimal":
        import decimal
        decimal.getcontext().prec = arg
    elif kind == "int-digits":
        sys.set_int_max_str_digits(arg)
    elif kind == "excepthook":
        sys.excepthook = lambda *a: None
    elif kind == "profile":
        sys.setprofile((lambda f, e, a: None) if arg else None)
    elif kind == "trace":
        sys.settrace((lambda f, e, a: None) if arg else None)
    elif kind == "intern":
        for w in arg:
            keep.append(sys.intern(w))
    elif kind == "main-name":
        sys.modules["__main__"].__name__ = arg
    elif kind == "nofiles":
        import resource
        resource.setrlimit(resource.RLIMIT_NOFILE, (arg, arg))
    else:
        raise AssertionError(kind)


ADDR = re.compile(r"0x[0-9a-f]+")


def one(conv, text):
    try:
        v = conv(text)
    except BaseException as e:
        try:
            msg = str(e)
        except BaseException:
            msg = "<no message>"
        return ["exc", type(e).__name__, ADDR.sub("0x", msg)[:400]]
    return ["ok", v] if type(v) is str else ["bad", type(v).__name__]


STDLIB = ["xml.dom.minidom", "xml.dom.expatbuilder", "xml.dom.pulldom", "xml.sax.saxutils", "xml.sax.expatreader", "xml.etree.ElementTree", "html", "html.parser", "logging.handlers", "asyncio",
          "concurrent.futures.thread", "decimal", "datetime", "locale", "random", "socket", "subprocess", "tempfile", "shutil", "pathlib", "json", "string", "unicodedata",
          "textwrap", "difflib", "inspect", "dataclasses", "typing", "fractions", "statistics", "heapq", "bisect", "queue", "contextvars", "urllib.parse", "hashlib", "pickle",
          "zipfile", "importlib.resources", "importlib.metadata", "codecs", "encodings.idna", "threading", "signal", "traceback", "warnings", "weakref", "operator", "itertools"]


def run_in(conv, text):
    """One conversion, from where an application may call it."""
    box = []
    how = context[0]
    go = lambda *a: box.append(one(conv, text))     # noqa: E731
    if how == "plain" or how == "executor" and late_now[0]:
        go()
    elif how == "task":
        load("asyncio")
        import asyncio

        async def top():
            await asyncio.gather(asyncio.sleep(0), sub())

        async def sub():
            go()
        asyncio.run(top())
    elif how == "executor":
        load("concurrent.futures.thread")
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(2) as ex:
            ex.submit(go).result()
    elif how == "generator":
        def gen():
            yield
            try:
                yield
            finally:
                go()
        g = gen()
        next(g)
        next(g)
        g.close()
    elif how == "finalizer":
        class F:
            def __del__(self):
                go()
        f = F()
        del f
    elif how == "weakref":
        import weakref

        class W:
            pass
        w = W()
        r = weakref.ref(w, go)
        del w
        del r
    elif how == "gc":
        class G:
            def __del__(self):
                go()
        g = G()
        g.me = g
        del g
        gc.collect()
    elif how == "signal":
        import signal
        import threading
        if threading.current_thread() is not threading.main_thread():
            go()
        else:
            old = signal.signal(signal.SIGUSR1, go)
            signal.raise_signal(signal.SIGUSR1)
            signal.signal(signal.SIGUSR1, old)
    elif how == "context":
        import contextvars
        contextvars.copy_context().run(go)
    elif how == "except":
        try:
            raise KeyError("outer")
        except KeyError:
            go()
    elif how == "deep":
        def down(n):
            return down(n - 1) if n else go()
        down(120)
    elif how == "fork":
        import fcntl
        low = os.pipe()          # not under the numbers of closed standard streams
        r, w = (fcntl.fcntl(fd, fcntl.F_DUPFD, 20) for fd in low)
        for fd in low:
            os.close(fd)
        pid = os.fork()
        if pid == 0:
            try:
                go()
                os.write(w, json.dumps(box[0]).encode())
            except BaseException as e:
                os.write(w, repr(e).encode())
            finally:
                os._exit(0)
        os.close(w)
        data = b""
        while True:
            b = os.read(r, 1 << 16)
            if not b:
                break
            data += b
        os.close(r)
        st = os.waitpid(pid, 0)[1]
        try:
            box.append(json.loads(data))
        except ValueError:
            raise RuntimeError(f"forked child ended with status {st}: {data!r}")
    else:
        raise AssertionError(how)
    return box[0]


def threaded(conv, text):
    import threading
    box = []

    def body():
        try:
            box.append(run_in(conv, text))
        except BaseException as e:
            box.append(e)
    th = threading.Thread(target=body)
    th.start()
    th.join()
    if isinstance(box[0], BaseException):
        raise box[0]
    return box[0]


class Env(dict):
    """os.environ, remembering what is asked for."""
    asked = {}

    def get(self, k, d=None):
        self.asked[str(k)] = 1
        return dict.get(self, k, d)

    def __getitem__(self, k):
        self.asked[str(k)] = 1
        return dict.__getitem__(self, k)

    def __contains__(self, k):
        self.asked[str(k)] = 1
        return dict.__contains__(self, k)

    def pop(self, k, *d):
        self.asked[str(k)] = 1
        return dict.pop(self, k, *d)

    def setdefault(self, k, d=None):
        self.asked[str(k)] = 1
        return dict.setdefault(self, k, d)


def discover(job, outs):
    """What the library asks of its process: variables, files, and modules that are not there."""
    for m in STDLIB:
        __import__(m)
    looked = {}
    os.environ = Env(os.environ)
    os.getenv = lambda k, d=None: os.environ.get(k, d)

    def wrap(name):
        f = getattr(os, name)

        def g(p=".", *a, **k):
            if isinstance(p, (str, os.PathLike)):
                looked[os.path.abspath(os.fspath(p))] = 1
            return f(p, *a, **k)
        setattr(os, name, g)
    for name in ("stat", "lstat", "access", "listdir", "scandir"):
        wrap(name)
    own = os.path.dirname(os.__file__)

    def audit(event, args):
        if event == "open" and isinstance(args[0], str):
            looked[os.path.abspath(args[0])] = 1
    sys.addaudithook(audit)
    go(job, outs)
    own = (own, SRC, os.path.realpath(SRC))
    files = [f for f in list(looked) if not f.startswith(own) and not f.endswith((".py", ".pyc"))]
    return {"vars": sorted(Env.asked), "files": sorted(files)}


def go(job, outs):
    try:
        if job.get("import_in_thread"):
            import threading
            box = []

            def imp():
                try:
                    from mathml_to_latex.converter import MathMLToLaTeX
                    box.append(MathMLToLaTeX)
                except BaseException as e:
                    box.append(e)
            th = threading.Thread(target=imp)
            th.start()
            th.join()
            if isinstance(box[0], BaseException):
                raise box[0]
            MathMLToLaTeX = box[0]
        else:
            from mathml_to_latex.converter import MathMLToLaTeX
    except BaseException as e:
        outs.append(["import", type(e).__name__, str(e)[:300]])
        return
    shared = MathMLToLaTeX()
    for text, settings in job["ops"]:
        for s in settings:
            apply(s)
        conv = shared.convert if job.get("shared") else MathMLToLaTeX.convert
        outs.append((threaded if in_thread[0] else run_in)(conv, text))


def finish(outs):
    data = json.dumps(outs).encode()
    while data:
        data = data[os.write(OUT_FD, data):]
    os._exit(0)


def guarded(job, outs):
    try:
        go(job, outs)
    except BaseException:
        import traceback
        outs[:] = [["harness", traceback.format_exc()[-1500:]]]


def main():
    with os.fdopen(IN_FD, "rb", closefd=False) as f:
        job = json.loads(f.read())
    if job.get("sys_path"):
        sys.path[0] = job["sys_path"]
    for s in job["pre"]:
        apply(s)
    outs = []
    if job.get("discover"):
        finish(discover(job, outs))
    if job.get("late"):            # after the main program, before the interpreter is gone
        import atexit
        load("platform", "socket", "asyncio", "selectors", "queue", *STDLIB)      # some cannot be imported any more then

        def late():
            late_now[0] = True
            guarded(job, outs)
            finish(outs)
        atexit.register(late)
        return
    guarded(job, outs)
    finish(outs)


main()
