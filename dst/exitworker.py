"""One simulated process life that comes to its end: python3 exitworker.py VERIF SRC IN_FD OUT_FD

Reads a job, starts conversions in threads and stops them at planned events, ends the main
program in the planned way, and converts documents in everything that still runs afterwards:
exit handlers, finalizers that run at exit, threads that outlive the main program.
"""
import sys

VERIF, SRC, IN_FD, OUT_FD = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True

import _thread
import atexit
import json
import os
import types
import weakref

_ADDR = __import__("re").compile(r"0x[0-9a-f]+")
write, allocate, ident, start_thread = os.write, _thread.allocate_lock, _thread.get_ident, _thread.start_new_thread


def report(*a):
    write(OUT_FD, (json.dumps(a) + "\n").encode())


with os.fdopen(IN_FD, "rb") as f:
    job = json.load(f)
sys.argv = ["app"]

from dst import monitor  # noqa

monitor.prepare()
sys.path.remove(VERIF)
sys.pycache_prefix, sys.dont_write_bytecode = job["pyc"], False
sys.path.insert(0, SRC)


class Stop(BaseException):
    pass


STOPS = {"keyboard": KeyboardInterrupt, "exit": SystemExit, "error": RuntimeError}
counts, plans = {}, {}


def event(code, pos):
    t = ident()
    p = plans.get(t)
    if p is None:
        return
    n = counts[t] = counts.get(t, 0) + 1
    if n == p[0]:
        p[1]()


def observe():
    seen = set()

    def visit(o):
        if isinstance(o, (staticmethod, classmethod)):
            o = o.__func__
        if isinstance(o, property):
            for g in (o.fget, o.fset, o.fdel):
                visit(g)
        elif isinstance(o, types.FunctionType):
            if (o.__module__ or "").startswith("mathml_to_latex") and o.__code__ not in seen:
                seen.add(o.__code__)
                for c in monitor.walk(o.__code__):
                    monitor.mon.set_local_events(monitor.TOOL, c, monitor.LINE)
        elif isinstance(o, type) and (o.__module__ or "").startswith("mathml_to_latex") and id(o) not in seen:
            seen.add(id(o))
            for v in list(vars(o).values()):
                visit(v)
    for name, m in list(sys.modules.items()):
        if name == "mathml_to_latex" or name.startswith("mathml_to_latex."):
            for v in list(vars(m).values()):
                visit(v)
    monitor.start(event)


shared = None


def load():
    global shared
    from mathml_to_latex.converter import MathMLToLaTeX
    shared = MathMLToLaTeX()
    return shared


def convert(text):
    try:
        v = (shared or load()).convert(text)
        return ["ok", v] if type(v) is str else ["bad", type(v).__name__]
    except BaseException as e:
        return ["exc", type(e).__name__, _ADDR.sub("0x", str(e))[:400]]


def all_of(where, ds):
    for d in ds:
        report(where, d, convert(job["docs"][d]))
    report(where, "end", None)


# --------------------------------------------------------------- the program
if job["early"]:
    atexit.register(all_of, "early", job["early"])
if job["import"]:
    load()
    observe()
    for d in job["first"]:
        report("first", d, convert(job["docs"][d]))
if job["late"]:
    atexit.register(all_of, "late", job["late"])


class Thing:
    pass


things = Thing()
if job["finalize"]:
    weakref.finalize(things, all_of, "finalize", job["finalize"])

if job["threads"]:
    import threading
    resume = []
    for i, (d, n, daemon) in enumerate(job["threads"]):
        parked = allocate()
        parked.acquire()
        go = allocate()
        go.acquire()

        def body(i=i, d=d, n=n, parked=parked, go=go):
            def park():
                report("parked", i, None)
                parked.release()
                go.acquire()
            plans[ident()] = [n, park]
            out = convert(job["docs"][d])
            del plans[ident()]
            report("thread", d, out)
            if parked.locked():
                parked.release()
        t = threading.Thread(target=body, daemon=bool(daemon))
        t.start()
        parked.acquire()
        if not daemon:
            resume.append((go, t))
    if resume or job["tail"]:
        def after(main=threading.main_thread()):
            main.join()
            for go, t in resume:
                go.release()
                t.join()
            all_of("tail", job["tail"])
        threading.Thread(target=after).start()
elif job["tail"]:
    import threading

    def after(main=threading.main_thread()):
        main.join()
        all_of("tail", job["tail"])
    threading.Thread(target=after).start()

report("main ends", job["end"], None)
end = job["end"]
if job.get("mid"):                    # in the middle of a conversion
    d, n = job["mid"]

    def stop():
        raise {"exit": SystemExit(3), "error": ValueError("planned end"), "keyboard": KeyboardInterrupt()}[end]
    plans[ident()] = [n, stop]
    (shared or load()).convert(job["docs"][d])
    del plans[ident()]
if end == "exit":
    sys.exit(3)
if end == "error":
    raise ValueError("planned end")
if end == "keyboard":
    raise KeyboardInterrupt
