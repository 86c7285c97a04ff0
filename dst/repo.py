"""The system under simulation: a fresh instance of mathml_to_latex on demand.

Sources come from /repo's working tree and are compiled once per worker process; every
`fresh()` executes the module bodies again, so a simulated process starts with cold state.
Nothing is written to /repo (no .pyc).
"""
import importlib
import importlib.abc
import importlib.machinery
import os
import sys

from . import monitor
from .instrument import compile_instrumented

REPO = os.environ.get("DST_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PKG = "mathml_to_latex"
PREFIX = os.path.join(SRC, PKG) + os.sep

_cache = {"line": {}, "opcode": {}, "hook": {}}
gran = "line"             # set in a child before fresh(): how the library's code reports its events


class BuildError(Exception):
    """The package does not compile or import at all: an error of the check, not a violation."""


io_faults = {}            # module name -> kinds of failures still to come when its source is read (a child sets it)


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        if io_faults.get(fullname):
            raise make_io_fault(io_faults[fullname].pop(0), fullname)
        code = _cache[gran].get(self.path)
        if code is None:
            raise BuildError(f"{self.path} appeared after the check started")
        return code


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname != PKG and not fullname.startswith(PKG + "."):
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path if path is not None else [SRC])
        if spec is not None and type(spec.loader) is importlib.machinery.SourceFileLoader:
            spec.loader = _Loader(fullname, spec.origin)
        return spec


_installed = False


def prepare():
    """Compile every module of the package (in the worker, before any child is forked)."""
    global _installed
    monitor.prepare()
    if not _installed:
        sys.dont_write_bytecode = True
        if SRC not in sys.path:
            sys.path.insert(0, SRC)
        sys.meta_path.insert(0, _Finder())
        _installed = True
    for root, dirs, files in os.walk(os.path.join(SRC, PKG)):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".py"):
                path = os.path.join(root, f)
                if path not in _cache["line"]:
                    try:
                        with open(path, "rb") as fh:
                            src = fh.read()
                        for g in ("line", "opcode"):
                            _cache[g][path] = monitor.observe(compile(src, path, "exec", dont_inherit=True), g)
                        _cache["hook"][path] = compile_instrumented(src, path)
                    except (SyntaxError, ValueError, OSError) as e:
                        raise BuildError(f"{path}: {e}")


def purge():
    for name in [m for m in sys.modules if m == PKG or m.startswith(PKG + ".")]:
        del sys.modules[name]
    importlib.invalidate_caches()


def make_io_fault(kind, name):
    import errno
    e = {"eio": lambda: OSError(errno.EIO, "injected: input/output error"), "eacces": lambda: PermissionError(errno.EACCES, "injected"),
         "enoent": lambda: FileNotFoundError(errno.ENOENT, "injected"), "emfile": lambda: OSError(errno.EMFILE, "injected: too many open files"),
         "memory": lambda: MemoryError("injected"), "torn": lambda: SyntaxError("injected: unexpected EOF"), "eof": lambda: EOFError("injected: marshal data too short"),
         "import": lambda: ImportError("injected", name=name), "keyboard": lambda: KeyboardInterrupt("injected"), "recursion": lambda: RecursionError("injected")}[kind]()
    injected_io.append(e)
    return e


injected_io = []


def modules():
    """Names of the package's modules."""
    out = []
    for path in _cache["line"]:
        n = os.path.relpath(path, SRC)[:-3].replace(os.sep, ".")
        out.append(n[:-9] if n.endswith(".__init__") else n)
    return sorted(out)


def fresh():
    """A cold instance of the library (what a newly started process has after `import`)."""
    purge()
    conv = importlib.import_module(PKG + ".converter")
    if not os.path.realpath(conv.__file__).startswith(os.path.realpath(SRC)):
        raise BuildError(f"imported {conv.__file__}, not {SRC}")
    return conv


class Lib:
    """Handles to the public surface of one instance."""

    def __init__(self, again=False):
        self.conv_mod = importlib.import_module(PKG + ".converter") if again else fresh()
        self.cls = self.conv_mod.MathMLToLaTeX

    def converter(self):
        return self.cls()

    def parse_adapter(self):
        return importlib.import_module(PKG + ".xml_to_mathml.factory").make_xml_to_mathml_adapter()

    def tree_adapter(self):
        return importlib.import_module(PKG + ".el_to_tex.adapter").MathMLElementToLatexConverterAdapter()
