"""Helpers of a demonstration: drive conversions of the library in ./src event by event."""
import os
import sys
import threading

SRC = os.path.join(os.getcwd(), "src")
sys.path.insert(0, SRC)
sys.dont_write_bytecode = True
WATCHED = (os.path.join(SRC, "mathml_to_latex"), os.sep + "xml" + os.sep)


def outcome(fn, *args):
    try:
        return ("ok", fn(*args))
    except BaseException as e:
        return ("exc", type(e).__name__, str(e))


def convert(text):
    from mathml_to_latex.converter import MathMLToLaTeX
    return MathMLToLaTeX.convert(text)


def fresh(text):
    """Outcome of the document alone in a new process."""
    import json
    import subprocess
    code = ("import sys, json; sys.path[:0] = [%r, %r]; import demo_lib; "
            "print(json.dumps(demo_lib.outcome(demo_lib.convert, json.loads(sys.stdin.read()))))") % (SRC, os.path.dirname(os.path.abspath(__file__)))
    r = subprocess.run([sys.executable, "-B", "-c", code], input=json.dumps(text), capture_output=True, text=True, timeout=60)
    return tuple(json.loads(r.stdout))


def forget():
    """Make the library cold again."""
    for m in [m for m in sys.modules if m.split(".")[0] == "mathml_to_latex"]:
        del sys.modules[m]


def cold():
    """Forget what the library has learnt, with its modules loaded."""
    import importlib
    forget()
    importlib.import_module("mathml_to_latex.converter")


def at_event(fn, n, action):
    """Run fn(); at its n-th line inside the library (or xml package) call action() there.

    Returns (outcome of fn, number of lines seen).
    """
    seen = [0]

    def local(frame, event, arg):
        if event == "line":
            seen[0] += 1
            if seen[0] == n:
                action()
        return local

    def tracer(frame, event, arg):
        f = frame.f_code.co_filename
        return local if f.startswith(WATCHED[0]) or WATCHED[1] in f else None

    out = None
    sys.settrace(tracer)
    try:
        out = ("ok", fn())
    except BaseException as e:
        out = ("exc", type(e).__name__, str(e))
    finally:
        sys.settrace(None)
    return out, seen[0]


def events(fn):
    return at_event(fn, -1, None)[1]


def in_thread(fn, timeout=10.0):
    """Outcome of fn in another thread, or ("stuck",)."""
    box = []
    t = threading.Thread(target=lambda: box.append(outcome(fn)), daemon=True)
    t.start()
    t.join(timeout)
    return box[0] if box else ("stuck",)


def fail(*why):
    print("FAIL:", *why)
    sys.stdout.flush()
    os._exit(1)


def passed():
    print("ok")
    sys.stdout.flush()
    os._exit(0)
