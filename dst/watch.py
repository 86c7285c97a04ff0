"""Side effects of one library call: audit events, process-wide settings, standard streams."""
import atexit
import codecs
import contextvars
import faulthandler
import gc
import importlib
import locale
import os
import random
import resource
import signal
import sys
import threading
import warnings

_PYFILE = (".py", ".pyc", ".so", ".pth")
# event name -> forbidden while a conversion runs
FORBIDDEN = (
    "socket.", "subprocess.Popen", "os.system", "os.exec", "os.posix_spawn", "os.spawn", "os.fork", "os.forkpty",
    "os.startfile", "os.remove", "os.rename", "os.rmdir", "os.mkdir", "os.chmod", "os.chown", "os.link", "os.symlink",
    "os.truncate", "os.utime", "os.chdir", "os.fchdir", "os.putenv", "os.unsetenv", "os.kill", "os.killpg", "os.listdir", "os.scandir",
    "os.walk", "os.setxattr", "os.lockf", "shutil.", "tempfile.", "urllib.", "http.", "ftplib.", "smtplib.", "imaplib.",
    "poplib.", "telnetlib.", "webbrowser.", "ctypes.", "mmap.", "sqlite3.", "syslog.", "signal.pthread_kill", "fcntl.",
    "resource.", "glob.", "pty.spawn", "_thread.start_new_thread", "_thread.start_joinable_thread", "sys.setprofile",
    "sys.addaudithook", "sys.set_asyncgen_hooks", "builtins.input", "gc.freeze")


class Watch:
    def __init__(self):
        for name in ("logging", "asyncio", "concurrent.futures", "decimal", "tempfile", "datetime", "json", "html", "unicodedata", "xml.sax", "xml.etree.ElementTree"):
            importlib.import_module(name)        # importing a module that is there changes nothing
        self.on = False
        self.events = []
        self.outfd = os.memfd_create("std")
        os.dup2(self.outfd, 1)
        os.dup2(self.outfd, 2)
        self.sizes = 0
        sys.addaudithook(self._hook)

    def _importing(self):
        f = sys._getframe(2)
        while f is not None:
            if f.f_code.co_filename.startswith("<frozen importlib"):
                return True
            f = f.f_back
        return False

    def _hook(self, event, args):
        if not self.on:
            return
        if event == "open":
            path, mode, flags = (list(args) + [None] * 3)[:3]
            p = os.fsdecode(path) if isinstance(path, (str, bytes)) else repr(path)
            writing = isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
            if not writing and (self._importing() or p.endswith(_PYFILE)):
                return
            self.events.append(f"open {p}")
        elif event.startswith(FORBIDDEN):
            if event in ("os.listdir", "os.scandir", "ctypes.dlopen") and self._importing():
                return
            self.events.append(f"{event} {args!r}"[:200])

    @staticmethod
    def settings():
        dc = sys.modules.get("decimal")
        if dc is not None:
            dc.getcontext()            # a context variable appears at the first use
        s = {
            "recursion limit": sys.getrecursionlimit(),
            "switch interval": sys.getswitchinterval(),
            "int digits limit": sys.get_int_max_str_digits(),
            "gc enabled": gc.isenabled(),
            "gc thresholds": gc.get_threshold(),
            "gc debug": gc.get_debug(),
            "warnings filters": repr(warnings.filters),
            "showwarning": id(warnings.showwarning),
            "locale": locale.setlocale(locale.LC_ALL),
            "environment": hash(frozenset(os.environ.items())),
            "sys.path": tuple(sys.path),
            "meta path": len(sys.meta_path),
            "path hooks": len(sys.path_hooks),
            "stdin/out/err": (id(sys.stdin), id(sys.stdout), id(sys.stderr)),
            "excepthook": (id(sys.excepthook), id(threading.excepthook), id(sys.unraisablehook)),
            "displayhook": id(sys.displayhook),
            "random state": hash(random.getstate()),
            "threads": sum(1 for t in list(threading._active.values()) if not isinstance(t, threading._DummyThread)),
            "profile hook": id(sys.getprofile()),
            "thread trace hooks": (id(threading._trace_hook), id(threading._profile_hook)),
            "stack size": threading.stack_size(),
            "signal handlers": tuple(str(signal.getsignal(n)) for n in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGHUP, signal.SIGUSR1, signal.SIGUSR2, signal.SIGQUIT, signal.SIGPIPE, signal.SIGCHLD, signal.SIGVTALRM, signal.SIGPROF,
                                                                             signal.SIGXCPU, signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL)),
            "blocked signals": tuple(sorted(signal.pthread_sigmask(signal.SIG_BLOCK, []))),
            "signal wakeup": _wakeup(),
            "timers": tuple(signal.getitimer(n) != (0.0, 0.0) for n in (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)),
            "exit functions": atexit._ncallbacks(),
            "fault handler": faulthandler.is_enabled(),
            "context variables": len(contextvars.copy_context()),
            "resource limits": tuple(resource.getrlimit(n) for n in (resource.RLIMIT_NOFILE, resource.RLIMIT_AS, resource.RLIMIT_CORE, resource.RLIMIT_STACK, resource.RLIMIT_DATA, resource.RLIMIT_FSIZE, resource.RLIMIT_CPU)),
            "niceness": os.getpriority(os.PRIO_PROCESS, 0),
            "cpu affinity": tuple(sorted(os.sched_getaffinity(0))),
            "gc callbacks": len(gc.callbacks),
            "gc frozen": gc.get_freeze_count(),
            "async generator hooks": repr(sys.get_asyncgen_hooks()),
            "coroutine tracking": sys.get_coroutine_origin_tracking_depth(),
            "codec error handlers": _codec_handlers(),
            "user": (os.getuid(), os.geteuid(), os.getgid()),
            "session": (os.getsid(0), os.getpgid(0)),
            "dont_write_bytecode": sys.dont_write_bytecode,
            "cwd": os.getcwd(),
            "umask": _umask(),
            "open descriptors": _fds(),
        }
        lg = sys.modules.get("logging")
        if lg is not None:
            s["logging"] = (lg.root.level, len(lg.root.handlers), lg.root.manager.disable)
        so = sys.modules.get("socket")
        if so is not None:
            s["socket timeout"] = so.getdefaulttimeout()
        if dc is not None:
            s["decimal context"] = repr(dc.getcontext())
        return s

    def begin(self, k):
        self.before = self.settings()
        self.surface = surface()
        self.events = []
        self.sizes = os.fstat(self.outfd).st_size
        self.on = True

    def end(self, k):
        self.on = False
        after = self.settings()
        out = []
        for name, v in self.before.items():
            if after.get(name) != v:
                out.append(f"setting changed: {name}")
        now = surface()
        for owner, names in self.surface.items():
            if now.get(owner, names) != names:
                new = now[owner]
                out.extend(f"changed: {owner}.{n}" for n in sorted(set(names) | set(new)) if names.get(n) != new.get(n))
        try:
            sys.stdout.flush()
            sys.stderr.flush()
        except Exception:
            pass
        if os.fstat(self.outfd).st_size != self.sizes:
            out.append("wrote to a standard stream")
        out.extend(self.events)
        return out


def _umask():
    with open("/proc/self/status") as f:
        for line in f:
            if line.startswith("Umask"):
                return line.strip()


def _fds():
    return len(os.listdir("/proc/self/fd"))


def _wakeup():
    try:
        fd = signal.set_wakeup_fd(-1)
        signal.set_wakeup_fd(fd)
        return fd
    except ValueError:
        return None            # not in the main thread


def _codec_handlers():
    return tuple(id(codecs.lookup_error(n)) for n in ("strict", "ignore", "replace", "xmlcharrefreplace", "backslashreplace"))


# modules an application shares with the library: their functions, and their classes' members
_SHARED = ("builtins", "os", "posix", "posixpath", "sys", "time", "re", "io", "copy", "string", "random", "threading", "_thread", "warnings", "locale", "gc", "signal",
           "codecs", "functools", "collections", "itertools", "operator", "types", "enum", "abc", "weakref", "copyreg", "importlib", "contextlib", "json", "logging",
           "typing", "traceback", "linecache", "unicodedata", "html", "decimal", "datetime", "socket", "subprocess", "tempfile", "shutil", "atexit")
_QUIET = {"last_exc", "last_type", "last_value", "last_traceback", "unraisablehook", "__warningregistry__", "__dst_hook__"}
_CLASS_QUIET = {"__abstractmethods__", "_abc_impl", "__doc__", "__weakref__", "__dict__", "__annotations__"}


def surface():
    """Identity of every callable the process shares with the library, and of its classes' members."""
    out = {}
    for name, m in list(sys.modules.items()):
        if name not in _SHARED and not name.startswith(("xml.", "pyexpat")) or m is None:
            continue
        d = vars(m)
        own = out[name] = {}
        for key, v in list(d.items()):
            if key in _QUIET or not callable(v):
                continue
            own[key] = id(v)
            if isinstance(v, type) and getattr(v, "__module__", None) == name and (name.startswith("xml.") or name in ("re", "string", "enum")):
                out[f"{name}.{key}"] = {k: id(x) for k, x in list(vars(v).items()) if k not in _CLASS_QUIET and (callable(x) or isinstance(x, (property, classmethod, staticmethod)) or k.startswith("_"))}
    return out
