"""Execution of one plan in a forked child, and the recorded history.

plan = {"prop", "gran", "docs": [doc...], "tasks": [[op...]...],
        "actions": [[task, n, kind, arg]...], "first", "gc", "warm", "watch", ...}
op   = {"op": "convert", "d": i, "c": "shared"|"own"|"new"|"class"|"adapter", ["squeeze", "nomem", "parser"]}
     | {"op": "bulk", ...} | {"op": "gc"} | {"op": "purge"} | {"op": "clock", "s": secs}
     | {"op": "tree", "d": i, "c": "new"|"reuse", ["path", "squeeze"]} | {"op": "fork", "ds": [...], ["sweep"]} | {"op": "restart"}
     | {"op": "sweep", "bs": [battery index...]} | {"op": "import", "first": [module...], "io": {module: [failure...]}}
"""
import _thread
import gc
import importlib
import os
import random
import re
import sys
import threading
from array import array

from . import battery as B
from . import docs as D
from . import kernel as K
from . import proc, repo, seams

BASE_LIMIT = sys.getrecursionlimit()
_ADDR = re.compile(r"0x[0-9a-f]+")


def describe(e):
    try:
        msg = str(e)
    except BaseException:
        msg = "<no message>"
    return ["exc", type(e).__name__, _ADDR.sub("0x", msg)[:400]]


def outcome(value):
    return ["ok", value] if type(value) is str else ["bad", type(value).__name__]


class Run:
    def __init__(self, out, plan, record=False, keep_log=False):
        self.out = out
        self.lib = None
        self.depths = []          # of the stack at nested conversions
        self.plan = plan
        self.hist = []
        self.texts = [D.render(d) for d in plan["docs"]]
        self.trees = {}
        self.convs = {}
        self.watch = None
        self.seam = None
        if plan.get("tracemalloc"):
            import tracemalloc
            self.tracemalloc = tracemalloc
            tracemalloc.start()
        gran = plan.get("gran", "line")
        repo.gran = gran
        self.k = K.Kernel(gran, plan.get("budget", 3_000_000), record, self.on_fatal, self.nested)
        self.k.keep_log = keep_log
        self.k.lifo = bool(plan.get("lifo"))
        self.k.install_events()
        if not plan.get("cold"):
            self.lib = repo.Lib()
            self.shared = self.lib.converter()

    # ------------------------------------------------------------- results
    def result(self, fatal=None):
        k = self.k
        fired = [[t.id] + f for t in k.tasks for f in t.fired]
        for r in self.hist:
            k.log("op", r["t"], r["i"], r["op"], r.get("out"))
        res = {"hist": self.hist, "fatal": fatal, "digest": k.trace.hexdigest(), "itl": k.itl.hexdigest(),
               "switches": k.switches, "steps": k.steps(), "sim_s": k.time() - 1_700_000_000.0,
               "faults": k.fault_counts, "fired": fired, "n": [t.n for t in k.tasks],
               "probes": k.probes}
        if k.keep_log:
            res["log"] = k.log_lines
        return res

    def on_fatal(self, kind, detail):
        self.out.finish(("ok", self.result([kind, detail])))

    # ----------------------------------------------------------- operations
    def _converter(self, t, how):
        if how == "shared":
            return self.shared
        if how == "class":
            return self.lib.cls
        if how == "own":
            c = self.convs.get(("own", t.id))
            if c is None:
                c = self.convs[("own", t.id)] = self.lib.converter()
            return c
        if how == "adapter":
            c = self.convs.get(("ad", t.id))
            if c is None:
                c = self.convs[("ad", t.id)] = _AdapterPath(self.lib)
            return c
        return self.lib.converter()

    def call(self, t, fn, rec, trace=True):
        """One library call, observed; every way of ending is recorded."""
        k = self.k
        n0 = t.n
        before = len(t.injected)
        try:
            if trace:
                k.arm(t)
            try:
                v = fn()
            finally:
                k.disarm(t)
            rec["out"] = outcome(v)
        except BaseException as e:
            k.disarm(t)
            rec["out"] = describe(e)
            rec["same"] = any(e is x for x in t.injected[before:])
            e.__traceback__ = None
            e.__context__ = None
            del e
        rec["inj"] = len(t.injected) - before
        if rec["inj"]:
            rec["kind"] = t.fired[-1][1]
            rec["at"] = t.fired[-1][2]
            for x in t.injected[before:]:
                x.__traceback__ = None
                x.__context__ = None
        rec["n"] = t.n - n0

    def nested(self, t, arg, where):
        """A conversion started from a callback in the middle of another one, with as much stack as at top level."""
        depth, f = 0, sys._getframe()
        while f is not None:
            depth, f = depth + 1, f.f_back
        self.depths.append(depth)
        sys.setrecursionlimit(BASE_LIMIT + max(self.depths))
        try:
            self._nested(t, arg, where)
        finally:
            self.depths.remove(depth)
            sys.setrecursionlimit(BASE_LIMIT + max(self.depths, default=0))

    def _nested(self, t, arg, where):
        rec = {"t": t.id, "i": -1, "op": "nested", "d": arg, "at": where, "depth": t.depth + 1}
        self.hist.append(rec)
        self.k.probes["max nesting depth"] = max(self.k.probes.get("max nesting depth", 0), t.depth + 1)
        t.depth += 1
        if isinstance(arg, dict):        # a whole series of them
            del rec["d"]
            rec["op"] = arg["op"]
            t.armed = False
            if arg["op"] == "sweep":
                self._sweep(t, rec, arg)
            else:
                self.hist.remove(rec)
                self._bulk(t, rec, arg)
            t.armed = True
            t.depth -= 1
            return
        try:
            rec["out"] = outcome(self.shared.convert(self.texts[arg]))
        except BaseException as e:
            rec["out"] = describe(e)
            del e
        t.depth -= 1

    def op(self, t, i, op):
        k = self.k
        kind = op["op"]
        rec = {"t": t.id, "i": i, "op": kind}
        if self.lib is None and kind != "import":
            return                # the import before it failed
        if kind == "convert":
            rec["d"] = op["d"]
            self.hist.append(rec)
            conv = self._converter(t, op.get("c", "shared"))
            text = self.texts[op["d"]]
            if "parser" in op:
                self._parser_op(t, rec, conv, text, op["parser"], op.get("default"))
            elif "squeeze" in op:
                self._squeeze_op(t, rec, lambda: conv.convert(text), op["squeeze"])
            elif "nomem" in op:
                self._nomem_op(t, rec, conv, text, op["nomem"])
            else:
                if self.watch and self.plan["watch"] != "whole":
                    self.watch.begin(k)
                self.call(t, lambda: conv.convert(text), rec, self.plan.get("trace", True))
                if self.watch and self.plan["watch"] != "whole":
                    rec["side"] = self.watch.end(k)
            if self.plan.get("gc"):
                gc.collect()
        elif kind == "bulk":
            self._bulk(t, rec, op)
        elif kind == "sweep":
            self.hist.append(rec)
            self._sweep(t, rec, op)
        elif kind == "gc":
            gc.collect()
            k.count("gc")
        elif kind == "purge":
            re.purge()
            k.count("re cache purge")
        elif kind == "clock":
            k.now += op["s"]
            k.count("clock jump")
        elif kind == "restart":
            self.convs.clear()
            self.trees.clear()
            self.lib = repo.Lib()
            self.shared = self.lib.converter()
            gc.collect()
            k.count("restart")
        elif kind == "tree":
            rec["d"] = op["d"]
            self.hist.append(rec)
            tree = self.trees[op["d"]]
            rec["c"] = op.get("c", "new")
            if tree[0] == "exc":
                rec["out"] = tree[1]
                return
            if "path" in op:
                rec["path"] = op["path"]
            fn = lambda: self._convert_tree(op["d"], tree[1], op.get("c", "new"), op.get("path"))  # noqa: E731
            if "squeeze" in op:
                self._squeeze_op(t, rec, fn, op["squeeze"])
            else:
                self.call(t, fn, rec)
        elif kind == "fork":
            self._fork(t, rec, op)
        elif kind == "churn":
            self._churn(t, rec, op)
        elif kind == "import":
            self.hist.append(rec)
            self._import(t, rec, op)
        elif kind == "retree":
            self.hist.append(rec)
            self._retree(t, rec, op)
        else:
            raise AssertionError(kind)

    def _parser_op(self, t, rec, conv, text, outcomes, default):
        seam = seams.ParserSeam(outcomes, default).install()
        try:
            self.call(t, lambda: conv.convert(text), rec, self.plan.get("trace", False))
        finally:
            seam.uninstall()
        rec["attempts"] = seam.attempts
        rec["raised"] = [describe(e) for e in seam.raised]

    def _squeeze_op(self, t, rec, fn, room):
        k = self.k
        k.disarm(t)
        depth = 0
        f = sys._getframe()
        while f is not None:
            depth += 1
            f = f.f_back
        old = sys.getrecursionlimit()
        k.count("stack limited")
        try:
            sys.setrecursionlimit(depth + 1 + room)
            try:
                v = fn()
            finally:
                sys.setrecursionlimit(old)
            rec["out"] = outcome(v)
        except BaseException as e:
            sys.setrecursionlimit(old)
            rec["out"] = describe(e)
            del e
        if rec["out"][0] == "exc" and rec["out"][1] == "RecursionError":
            k.count("stack exhausted")
            rec["struck"] = True
        k.log("squeeze", room, rec["out"])

    def _nomem_op(self, t, rec, conv, text, spec):
        import _testcapi
        k = self.k
        k.disarm(t)
        start, length = spec
        arm, off = _testcapi.set_nomemory, _testcapi.remove_mem_hooks
        convert = conv.convert
        v = err = None
        stop = start + length if length else 0
        try:
            arm(start, stop)
            v = convert(text)
            off()
        except BaseException as e:
            off()
            err = e
        off()
        if err is not None:
            rec["out"] = describe(err)
            err.__traceback__ = None
            if rec["out"][1] == "MemoryError" or "out of memory" in rec["out"][2]:
                rec["struck"] = True
                k.count("allocation failure surfaced")
            err = None
        else:
            rec["out"] = outcome(v)
        k.count("allocation failures armed")

    def _sweep(self, t, rec, op):
        conv = self._converter(t, op.get("c", "shared"))
        rec["bs"] = op["bs"]
        outs = rec["outs"] = []
        for b in op["bs"]:
            try:
                o = outcome(conv.convert(B.DOCS[b]))
            except BaseException as e:
                o = describe(e)
                e.__traceback__ = None
                del e
            outs.append(B.digest(o))
        self.k.probes["battery conversions"] = self.k.probes.get("battery conversions", 0) + len(outs)

    def _bulk(self, t, rec, op):
        rec["seed"] = op["seed"]
        self.hist.append(rec)
        sample = set(op.get("sample", []))
        got = {}
        conv = self._converter(t, op.get("c", "shared"))
        j = -1
        for j, text in enumerate(bulk_texts(op)):
            try:
                o = outcome(conv.convert(text))
            except BaseException as e:
                o = describe(e)
                del e
            if j in sample:
                got[j] = o
            if self.plan.get("gc") and j % 64 == 0:
                gc.collect()
        gc.collect()
        self.k.count("bulk conversions")
        self.k.probes["bulk documents"] = self.k.probes.get("bulk documents", 0) + j + 1
        rec["got"] = [[j, got[j]] for j in sorted(got)]

    def _churn(self, t, rec, op):
        """Endless-history run: bytes still allocated after each phase of conversions."""
        k = self.k
        self.hist.append(rec)
        rng = random.Random(op["seed"])
        tm = self.tracemalloc
        nbytes, nblocks = array("q", [0] * (op["phases"] + 1)), array("q", [0] * (op["phases"] + 1))
        count = {}
        prev = None
        alive = _thread._count()
        for phase, n in enumerate([op["warm"]] + [op["n"]] * op["phases"]):
            gen = churn_texts(dict(op, base=op["seed"], seed=rng.randrange(1 << 30), n=n))
            for j, text in enumerate(gen):
                act = None
                if op.get("abandon") and j % 3 == 0:
                    act = [1 + int(rng.random() ** 2 * (op.get("span") or 400)), "raise", rng.choice(["keyboard", "deadline", "custom", "memory"])]
                elif op.get("nest") and j % 7 == 0:
                    act = [1 + int(rng.random() * 300), "nest", 0]
                how = op["c"] if op["c"] != "any" else rng.choice(["shared", "new", "adapter", "class"])
                if op.get("threads"):
                    # a thread that lives for one conversion, as in a server with a thread per request
                    th = threading.Thread(target=self._churn_one, args=(None, how, text, act, count))
                    th.start()
                    th.join()
                    th = None
                    while k.tasks[-1].state == "done":
                        gone = k.tasks.pop()
                        self.convs.pop(("ad", gone.id), None)
                else:
                    self._churn_one(t, how, text, act, count)
                del self.hist[1:]
            text = gen = None
            if op.get("threads"):
                k.count("short-lived threads", n)
                proc.settle(alive)
            re.purge()
            gc.collect()
            gc.collect()
            nbytes[phase] = tm.get_traced_memory()[0]
            nblocks[phase] = sys.getallocatedblocks()
            if op.get("where"):
                snap = tm.take_snapshot()
                if prev is not None and phase == op["phases"]:
                    rec["where"] = [str(x) for x in snap.compare_to(prev, "lineno")[:5]]
                prev = snap if phase == op["phases"] - 1 else prev
        rec["bytes"], rec["blocks"] = list(nbytes), list(nblocks)
        k.probes["conversions"] = sum(count.values())
        for how, c in count.items():
            k.fault_counts["conversions that " + (how if how != "abandoned" else "were abandoned")] = c

    def _churn_one(self, t, how, text, act, count):
        k = self.k
        t = t or k.cur
        if act:
            t.actions = [[t.n + act[0]] + act[1:]]
            t.ai = 0
            k.arm(t)
        try:
            self._converter(t, how).convert(text)
            end = "returned"
        except BaseException as e:
            end = "raised"
            e.__traceback__ = None
            del e
        k.disarm(t)
        if t.injected:
            end = "abandoned"
        t.injected.clear()
        t.fired.clear()
        t.actions = []
        t.ai = 0
        count[end] = count.get(end, 0) + 1

    def _fork(self, t, rec, op):
        k = self.k
        rec["mid"] = sum(1 for u in k.tasks if u is not t and u.state == "ready" and u.armed_op)
        rec["ds"] = op["ds"]
        self.hist.append(rec)
        k.count("fork")
        if rec["mid"]:
            k.count("fork while conversions in progress")
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                sub = []
                def fatal(kind, detail):
                    sub.append(["fatal", kind, detail])
                    proc.send(w, sub)
                    os._exit(0)
                k.on_fatal = fatal
                t.actions, t.ai, t.next_n = [], 0, 1 << 60
                k.budget = 1_000_000
                for u in k.tasks:
                    if u is not t:
                        u.state = "gone"
                for d in op["ds"]:
                    k.arm(t)           # a conversion that never ends is noticed
                    try:
                        sub.append(outcome(self.lib.converter().convert(self.texts[d])))
                    except BaseException as e:
                        sub.append(describe(e))
                    k.disarm(t)
                if op.get("bs"):
                    r2 = {}
                    self._sweep(t, r2, op)
                    sub.append(["sweep", r2["outs"]])
                proc.send(w, sub)
            finally:
                os._exit(0)
        os.close(w)
        st, sub = proc.recv(r, proc._real_time() + 60)
        os.close(r)
        if st != "ok":
            import signal
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            if st != "timeout":
                raise proc.HarnessError(f"forked child: {st}")
            sub = [["fatal", "waits-for-ever", "no result within a minute"]]
            rec["outs"] = sub
            return
        os.waitpid(pid, 0)
        rec["outs"] = sub

    def _import(self, t, rec, op):
        """First use of the library in this process, possibly cut short; a later one must make up for it."""
        repo.io_faults.clear()
        repo.io_faults.update({m: list(ks) for m, ks in op.get("io", {}).items()})
        del repo.injected_io[:]
        rec["first"] = op.get("first", [])

        def load():
            for m in op.get("first", []):
                importlib.import_module(m)
            lib = repo.Lib(again=True)
            lib.parse_adapter()
            lib.tree_adapter()
            self.shared = lib.converter()
            self.lib = lib
            return "loaded"
        self.lib = None
        self.call(t, load, rec)
        if repo.injected_io:
            rec["io"] = [type(e).__name__ for e in repo.injected_io]
            for e in repo.injected_io:
                self.k.count("loading failed: " + type(e).__name__)
                t.fired.append([t.n, "io", type(e).__name__])
        repo.io_faults.clear()

    def _retree(self, t, rec, op):
        """Every converter of every element of battery documents' trees, run again and again."""
        rng = random.Random(op["seed"])
        bad = rec["bad"] = []
        n = 0
        for b in op["bs"]:
            try:
                els = self.lib.parse_adapter().convert(B.DOCS[b])
            except BaseException:
                continue
            nodes, todo = [], list(els)
            while todo:
                e = todo.pop()
                nodes.append(e)
                todo.extend(e.children)
            if len(nodes) > 200:
                nodes = rng.sample(nodes, 200)

            def conv(c):
                try:
                    return outcome(c.convert())
                except BaseException as e:
                    return describe(e)

            def new(e):
                try:
                    return self.lib.tree_adapter().to_latex_converter(e)
                except BaseException as e2:
                    return e2
            "<mtable" in B.DOCS[b] and conv(_Whole(self.lib, els))     # marks the nested tables
            whole = conv(_Whole(self.lib, els))
            cs = [new(e) for e in nodes]
            first = {}
            order = [i for i in range(len(nodes)) for _ in range(op.get("times", 3))]
            rng.shuffle(order)
            for i in order:
                c = cs[i]
                if isinstance(c, BaseException):
                    continue
                if rng.random() < 0.3:
                    c = new(nodes[i])
                o = conv(c)
                n += 1
                if first.setdefault(i, o) != o:
                    bad.append([b, nodes[i].name, first[i], o])
                    break
            o = conv(_Whole(self.lib, els))
            if o != whole:
                bad.append([b, "math", whole, o])
        self.k.probes["tree conversions"] = self.k.probes.get("tree conversions", 0) + n
        rec["n"] = n

    # --------------------------------------------------------------- trees
    def build_tree(self, d):
        try:
            return ["ok", self.lib.parse_adapter().convert(self.texts[d])]
        except BaseException as e:
            return ["exc", describe(e)]

    def _convert_tree(self, d, els, how, path=None):
        els = subtree(els, path)
        if how == "reuse":
            key = ("tree", d, str(path))
            cs = self.convs.get(key)
            if cs is None:
                cs = [self.lib.tree_adapter().to_latex_converter(e) for e in els]
                self.convs[key] = cs
            return "".join([c.convert() for c in cs]).strip()
        return "".join([self.lib.tree_adapter().to_latex_converter(e).convert() for e in els]).strip()

    # ------------------------------------------------------------------ go
    def go(self):
        plan, k = self.plan, self.k
        if plan.get("watch"):
            from .watch import Watch
            self.watch = Watch()
        w = plan.get("warm")
        if w:
            for text in bulk_texts(w):
                try:
                    self.shared.convert(text)
                except BaseException:
                    pass
            gc.collect()
        for d in plan.get("trees", []):
            self.trees[d] = self.build_tree(d)
        acts = {}
        for a in plan.get("actions", []):
            acts.setdefault(a[0], []).append(a[1:])
        for ti, ops in enumerate(plan["tasks"]):
            def fn(t, ops=ops):
                for i, op in enumerate(ops):
                    t.armed_op = True
                    self.op(t, i, op)
                    t.armed_op = False
            k.spawn(fn, sorted(acts.get(ti, []), key=lambda a: a[0]))
        whole = plan.get("watch") == "whole"
        if whole:
            k.started = lambda: self.watch.begin(k)
        k.run(plan.get("first", 0))
        side = self.watch.end(k) if whole else None
        res = self.result()
        if side:
            res["side"] = side
        return res


def subtree(els, path):
    """The element reached by a path of child numbers (each modulo the number there); the roots without one."""
    out = els
    for i in path or []:
        if not els:
            break
        e = els[i % len(els)]
        out, els = [e], e.children
    return out


class _Whole:
    def __init__(self, lib, els):
        self.lib, self.els = lib, els

    def convert(self):
        return "".join([self.lib.tree_adapter().to_latex_converter(e).convert() for e in self.els])


class _AdapterPath:
    """The documented pipeline with one long-lived parsing adapter (reused between calls)."""

    def __init__(self, lib):
        self.lib = lib
        self.parse = lib.parse_adapter()

    def convert(self, text):
        els = self.parse.convert(text)
        cs = [self.lib.tree_adapter().to_latex_converter(e) for e in els]
        return "".join([c.convert() for c in cs]).strip()


def bulk_texts(op):
    """Many small documents, cheaply: distinct tokens, failures, repairs."""
    rng = random.Random(op["seed"])
    kind = op.get("k", "mix")
    n = op["n"]
    for _ in range(n):
        k = kind if kind != "mix" else rng.choice(["tok", "tok", "tok", "fail", "repair", "deep", "attr"])
        a, b, c = D.fresh_token(rng), D.fresh_token(rng), D.fresh_token(rng)
        pad = rng.randrange(1, 1500 if op["pad"] == 2 else 400) if op.get("pad") else 1       # many different lengths and places
        if k == "tok":
            yield f"<math><mi>{a}</mi><mo>{b}</mo><mn>{c}</mn></math>"
        elif k == "deep":
            yield f"<math><mfrac><msup><mi>{a}</mi><mn>{c}</mn></msup><mtext>{b}</mtext></mfrac></math>"
        elif k == "wide":
            # many distinct names in one document
            yield "<math>" + "".join(f"<mi>{x}</mi><mo>{x}+</mo><mn>1{x}</mn><mtext>{x}</mtext>" for x in [D.fresh_token(rng) + str(i) for i in range(op.get("w", 200))]) + "</math>"
        elif k == "names":
            yield "<math>" + "".join(f'<{x} {x}="{x}"><mi k{x}="1">{x}</mi></{x}>' for x in ["n" + hex(rng.randrange(1 << 40)) for i in range(op.get("w", 200))]) + "</math>"
        elif k == "attr":
            yield f'<math><mi mathvariant="{a}" d{rng.randrange(10**6)}="1">{b}</mi><mfenced open="{c}"><mi>x</mi></mfenced></math>'
        elif k == "repair":
            if pad > 1 and rng.random() < 0.7:       # damage at many different places
                yield f'<math><mi>{a * pad}</mi><mfenced open="{{" d{rng.randrange(10**6)}=><mi>{b}</mi></mfenced></math>'
            else:
                yield f'<math><mfenced open="{{" d{rng.randrange(10**6)}=><mi>{a * pad}</mi></mfenced></math>'
        elif pad > 1 and rng.random() < 0.5:
            yield f"<math><mi>{a * pad}</{b}>" if rng.random() < 0.5 else f'<math d="{a * pad}"><mi {b}"></math>'
        else:
            yield rng.choice([
                f"<math><mfrac><mi>{a}</mi></mfrac></math>", f"<math><mi>{a}</mi>", f"{a}", f"<math><mi>{a}</mo></math>",
                f"<math><msup><mi>{a}</mi><mi>{b}</mi><mi>{c}</mi></msup></math>", f"<math><mi d{a}>{b}</mi"])


def churn_texts(op):
    rng = random.Random(op["seed"])
    kind = op["k"]
    same = None
    syms = [chr(c) for c in list(range(0x391, 0x3ca)) + list(range(0x2200, 0x22ff)) + list(range(0x2190, 0x2200))]
    for i in range(op["n"]):
        k = kind if kind != "mix" else rng.choice(["tok", "tok", "fail", "repair", "deep", "attr", "sym", "table", "style", "script", "raw", "multi"])
        a, b = D.fresh_token(rng), D.fresh_token(rng)
        if k in ("tok", "fail", "repair", "deep", "attr"):
            yield from bulk_texts({"seed": rng.randrange(1 << 40), "k": k, "n": 1})
        elif k == "same":
            if same is None:         # one document in all phases
                one = random.Random(op.get("base"))
                a, b = D.fresh_token(one), D.fresh_token(one)
            same = same or f"<math><mfrac><mi>{a}</mi><mn>2</mn></mfrac><mfenced open= close=\")\"><mi>{b}</mi></mfenced></math>"
            yield same
        elif k == "sym":
            yield "<math>" + "".join(f"<{t}>{rng.choice(syms)}</{t}>" for t in ("mi", "mo", "mn", "mtext")) + f"<mo>{a}</mo></math>"
        elif k == "table":
            yield f"<math><mtable><mtr><mtd><mi>{a}</mi></mtd><mtd><mtable><mtr><mtd><mi>{b}</mi></mtd></mtr></mtable></mtd></mtr></mtable></math>"
        elif k == "style":
            yield f'<math><mstyle><mi mathvariant="{rng.choice(["bold", "italic", "fraktur", a])}">{b}</mi></mstyle><menclose notation="{a}"><mi>x</mi></menclose><maction actiontype="{b}"><mi>a</mi><mi>b</mi></maction></math>'
        elif k == "script":
            yield f"<math><mmultiscripts><mi>{a}</mi><mn>1</mn><mn>2</mn><mprescripts/><mn>3</mn><mi>{b}</mi></mmultiscripts><munderover><mo>lim</mo><mi>{a}</mi><mi>{b}</mi></munderover></math>"
        elif k == "unknown":
            yield f"<math><{'q' + hex(rng.randrange(1 << 30))}><mi>{a}</mi></{'z'}></math>" if rng.random() < 0.2 else (lambda q: f"<math><{q}><mi>{a}</mi></{q}></math>")("q" + hex(rng.randrange(1 << 30)))
        elif k == "multi":
            yield f"<root><math><mi>{a}</mi></math><math><mo>{b}</mo></math></root>"
        elif k == "ns":
            yield f'<mml:math xmlns:mml="http://{a.encode("utf-8").hex()}/"><mml:mi>{b}</mml:mi></mml:math>'
        elif k == "big":
            yield "<math>" + f"<mrow><mi>{a}</mi><mn>{i}</mn></mrow>" * 20 + "</math>"
        else:
            yield rng.choice(D.BROKEN)


def execute(out, plan, keep_log=False):
    if plan.get("cpu"):           # far more processor time than the run needs; beyond it the kernel ends the process
        import signal
        signal.signal(signal.SIGPROF, signal.SIG_DFL)
        signal.setitimer(signal.ITIMER_PROF, plan["cpu"])
    seams.install(plan.get("rand", 0))
    return Run(out, plan, keep_log=keep_log).go()


def dry_import(out, gran, first):
    """A first import alone: where its events lie."""
    seams.install(0)
    plan = {"docs": [], "tasks": [[{"op": "import", "first": first}]], "gran": gran, "cold": True}
    r = Run(out, plan, record=True)
    res = r.go()
    files = {i: os.path.relpath(r.k.codes[code].co_filename, repo.PREFIX) for (code, pos), i in r.k.loc_ids.items()}
    names = sorted(set(files.values()))
    return {"out": res["hist"][0].get("out"), "n": len(r.k.locs), "locs": array("I", r.k.locs).tobytes(), "names": names,
            "file": [names.index(files[i]) for i in range(len(files))]}


def dry(out, text, gran, budget, path=None):
    """The document alone, first thing in a new process: outcome, and where its events lie."""
    seams.install(0)
    plan = {"docs": [{"raw": text}], "tasks": [[{"op": "convert", "d": 0, "c": "new"}]], "gran": gran, "budget": budget}
    if path is not None:
        plan["tasks"] = [[{"op": "tree", "d": 0, "path": path}]]
        plan["trees"] = [0]
    r = Run(out, plan, record=True)
    res = r.go()
    locs = r.k.locs
    repo_ids, keys = [0] * len(r.k.loc_ids), [""] * len(r.k.loc_ids)
    for (code, pos), i in r.k.loc_ids.items():
        code = r.k.codes[code]
        repo_ids[i] = 1 if code.co_filename.startswith(repo.PREFIX) else 0
        keys[i] = f"{os.path.basename(code.co_filename)}:{code.co_firstlineno}:{code.co_name}:{pos}"
    return {"out": res["hist"][0].get("out"), "fatal": res["fatal"], "n": len(locs),
            "locs": array("I", locs).tobytes(), "in_repo": bytes(repo_ids), "keys": keys}
