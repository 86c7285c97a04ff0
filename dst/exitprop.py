"""C19: the end of a process."""
import json
import os
import select
import signal
import subprocess

from . import battery as B
from . import campaign as C
from . import docs as D
from . import envprop
from . import proc, props as P, repo

HERE = os.path.dirname(os.path.abspath(__file__))
LIMIT = 30


class C19(P.Prop):
    id = "C19"
    battery = False
    rule = ("A run is the life of one new process: conversions are stopped at seeded events in daemon threads (for ever) or in other threads (until the main program is over), the main program returns, exits, fails or is interrupted, "
            "at top level or in the middle of a conversion, and then exit handlers (registered before and after the first use of the library), finalizers that run at exit and threads that outlive the main program convert documents, "
            "in part of the runs with the library's first import there. Non-trivial: something was converted after the main program had ended.")
    measure = "distinct (ending, stopped threads, handlers) lives with their documents"
    real = ["mathml_to_latex (all modules, from /repo's working tree)", "xml.dom.minidom / pyexpat / re", "a new CPython 3.12 process per run, its threads, exit handlers and finalisation"]
    stub = ["when threads run (one at a time; stopped at planned events)"]
    assumptions = ["finalizers that run when modules have already been torn down are not demanded to work: the standard library's parser does not", "a process gets 30 s to end; its own work takes well under one"]
    quick_chunks = 64

    def chunk(self, rng, ctx, idx):
        docs = P.pool(rng, ctx, 5, limit=1500)
        docs += [{"raw": t} for t in rng.sample(D.BROKEN, 2) if P.usable(ctx, {"raw": t})]
        docs += [{"raw": B.DOCS[(idx * 10 + i) % len(B.FEATURES)]} for i in range(10)]
        docs = [d for d in docs if ctx.expect(D.render(d))[1] != "RecursionError"]
        some = lambda p, n: [rng.randrange(len(docs)) for _ in range(n)] if rng.random() < p else []  # noqa: E731
        for _ in range(12):
            imported = rng.random() < 0.85
            plan = {"docs": docs, "import": int(imported), "first": some(0.7, 3) if imported else [], "early": some(0.6, 6), "late": some(0.6, 6), "finalize": some(0.3, 4), "tail": some(0.4, 5),
                    "threads": [], "end": rng.choice(["return", "return", "exit", "error", "keyboard"]), "hashseed": rng.randrange(1000)}
            if imported and rng.random() < 0.6:
                for _ in range(rng.choice([1, 1, 2, 3])):
                    d = rng.randrange(len(docs))
                    n = self.lines(rng, ctx, D.render(docs[d]))
                    plan["threads"].append([d, n, int(rng.random() < 0.6)])
            if imported and plan["end"] != "return" and rng.random() < 0.4:
                d = rng.randrange(len(docs))
                plan["mid"] = [d, self.lines(rng, ctx, D.render(docs[d]))]
            if not (plan["early"] or plan["late"] or plan["finalize"] or plan["tail"]):
                plan["early"] = [rng.randrange(len(docs))]
            yield plan

    @staticmethod
    def lines(rng, ctx, text):
        e = C.pick_event(rng, (ctx.ref(text)["n"], [(0, ctx.ref(text))]))
        return e or 1

    def run(self, ctx, plan):
        work, pyc = envprop.scratch()
        job = {k: v for k, v in plan.items() if k not in ("prop", "docs")}
        job["pyc"] = pyc
        job["docs"] = [D.render(d) for d in plan["docs"]]
        env = {"PATH": "/usr/bin:/bin", "HOME": work, "PYTHONHASHSEED": str(plan["hashseed"])}
        ri, wi = os.pipe()
        ro, wo = os.pipe()
        re_, we = os.pipe()
        with open(os.devnull, "r+b") as null:
            child = subprocess.Popen(envprop.prefix() + ["/usr/bin/python3.12", "-B", os.path.join(HERE, "exitworker.py"), os.path.dirname(HERE), repo.SRC, str(ri), str(wo)],
                                     stdin=null, stdout=we, stderr=we, env=env, cwd=work, pass_fds=(ri, wo), start_new_session=True)
        for fd in (ri, wo, we):
            os.close(fd)
        got = {ro: b"", re_: b""}
        hung = False
        try:
            try:
                proc.write_all(wi, json.dumps(job).encode())
            except BrokenPipeError:
                pass
            os.close(wi)
            end = proc._real_time() + LIMIT
            left = {ro, re_}
            while left:
                r, _, _ = select.select(list(left), [], [], max(0.0, end - proc._real_time()))
                if not r:
                    hung = True
                    break
                for fd in r:
                    b = os.read(fd, 1 << 16)
                    got[fd] += b
                    if not b:
                        left.discard(fd)
            if not hung:
                try:
                    child.wait(max(0.1, end - proc._real_time()))
                except subprocess.TimeoutExpired:
                    hung = True
        finally:
            os.close(ro)
            os.close(re_)
            try:
                os.killpg(child.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            child.wait()
        hist = [json.loads(l) for l in got[ro].decode().splitlines()]
        err = got[re_].decode(errors="replace")
        parked = sum(1 for h in hist if h[0] == "parked")
        faults = {"process ended: " + plan["end"] + (" in the middle of a conversion" if plan.get("mid") else ""): 1}
        if parked:
            faults["conversion stopped when the process ended"] = parked
        for k in ("early", "late", "finalize", "tail"):
            if plan[k]:
                faults["conversions in " + {"early": "a handler older than the library", "late": "a handler younger than the library", "finalize": "a finalizer", "tail": "a thread that outlives the main program"}[k]] = len(plan[k])
        if not plan["import"]:
            faults["first import after the end of the main program"] = 1
        return {"hist": hist, "err": err, "status": None if hung else child.returncode, "hung": hung, "fatal": None, "digest": "%016x" % C.derive(json.dumps(hist), child.returncode if not hung else "hung"),
                "itl": self._sig(plan), "switches": 0, "steps": 0, "sim_s": 0.0, "faults": faults, "fired": [], "n": [], "probes": {"conversions after the end": sum(1 for h in hist if h[0] in ("early", "late", "finalize", "tail") and h[1] != "end")}}

    def _sig(self, plan):
        return C.derive([plan[k] for k in ("import", "first", "early", "late", "finalize", "tail", "threads", "end")], plan.get("mid"), [D.render(d) for d in plan["docs"][:3]])

    def nontrivial(self, plan, res):
        return res["probes"]["conversions after the end"] > 0

    def judge(self, ctx, plan, res, stats):
        life = {k: plan[k] for k in ("import", "first", "early", "late", "finalize", "tail", "threads", "end", "mid") if plan.get(k)}
        seen = []
        for where, d, out in res["hist"]:
            if out is None:
                seen.append([where, d])
                continue
            stats.add("judged")
            text = D.render(plan["docs"][d])
            exp = ctx.expect(text)
            if exp is not None and out != exp:
                return {"class": "wrong-result-at-exit", "detail": f"conversion in {where}", "document": text, "expected": exp, "got": out, "life": life}
        if res["hung"]:
            return {"class": "does-not-end", "detail": f"the process has not ended after {LIMIT} s", "reports": res["hist"][-3:], "stderr": res["err"][-1500:], "life": life}
        for k in ("early", "late", "finalize", "tail"):
            if plan[k] and [k, "end"] not in seen:
                return {"class": "cut-off", "detail": f"the conversions in {k} did not come to their end", "stderr": res["err"][-1500:], "life": life}
        want = {"return": 0, "exit": 3, "error": 1, "keyboard": -signal.SIGINT}[plan["end"]]
        if res["status"] != want and not (plan["end"] == "keyboard" and res["status"] == 1):      # 1 if code was executed in between, which is the interpreter's doing
            return {"class": "wrong-exit", "detail": f"exit status {res['status']}, expected {want}", "stderr": res["err"][-1500:], "life": life}
        err = res["err"]
        last = {"error": "ValueError: planned end", "keyboard": "KeyboardInterrupt"}.get(plan["end"])
        if last and not (err.rstrip().endswith(last) and (err.count("Traceback") == 1 or plan.get("mid"))) or not last and err.strip():
            return {"class": "noise-at-exit", "detail": "something is written to the standard streams while the process ends", "stderr": err[-1500:], "life": life}
        return None

    def sample(self, plan, res):
        return {"life": {k: plan[k] for k in ("import", "first", "early", "late", "finalize", "tail", "threads", "end")}, "mid": plan.get("mid"), "status": res["status"], "reports": res["hist"][:6]}

    def shrinks(self, plan):
        for key in ("threads", "first", "early", "late", "finalize", "tail"):
            yield from C.shrink_list(plan, key)
        if plan.get("mid"):
            p = C.copy(plan)
            del p["mid"]
            yield p
        if plan["end"] != "return":
            p = C.copy(plan)
            p["end"] = "return"
            p.pop("mid", None)
            yield p


P.ALL["C19"] = C19()
