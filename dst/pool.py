"""C18: a pool of worker processes behind an unreliable transport.

The simulated process is the coordinator.  Every worker is a real process (forked from it, or with
a cold library) that does one job at a time and is waited for, so that the only order there is is
the order of the simulated network: deliveries are events on a virtual clock, and what a message
carries is pickled, unpickled and copied for real.

plan = {"docs", "jobs": [[doc, how]...], "nodes": [{"cold": 0|1, "rejoin": secs}...], "proto": n, "warm": 0|1,
        "net": seed of the delays, "faults": [[message number, "lose"|"dup"|"late", secs]...],
        "crash": [[node, its job number, event]...]}
how  = "convert" | "staged" (parse on one worker, convert on another) | "used" (parsed and converted, then sent on)
     | "snapshot" (copied at an event in the middle of its conversion)
"""
import copy
import heapq
import os
import pickle
import random
import select

from . import campaign as C
from . import docs as D
from . import monitor
from . import props as P
from . import proc, repo, seams, sim

TIMEOUT, SPAN = 30.0, 0.05
COPIES = ["none", "none", "copy", "deepcopy", "again", "relay"]


def details(x):
    """What of an outcome must survive the trip."""
    if isinstance(x, BaseException):
        t = type(x)
        return sim.describe(x) + [t.__module__, t.__qualname__, sorted((str(k), sim._ADDR.sub("0x", repr(v))[:300]) for k, v in vars(x).items() if not str(k).startswith("_"))]
    return sim.outcome(x)


class Events:
    """Counts the events of library code in this process; acts at one of them."""

    def __init__(self):
        self.n, self.at, self.act = 0, 0, None
        monitor.start(self.event)

    def event(self, code, pos):
        self.n += 1
        if self.n == self.at:
            act, self.act = self.act, None
            if act:
                act()


class Node:
    """A worker process."""

    def __init__(self, cold, lib, proto):
        self.jr, self.jw = os.pipe()
        self.rr, self.rw = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.jw)
                os.close(self.rr)
                self.serve(None if cold else lib, proto)
            finally:
                os._exit(0)
        os.close(self.jr)
        os.close(self.rw)

    # ------------------------------------------------ in the worker process
    def serve(self, lib, proto):
        ev = Events()
        while True:
            st, job = proc.recv(self.jr, proc._real_time() + 600)
            if st != "ok":
                return
            ev.n, ev.at, ev.act = 0, 0, None
            if job["crash"]:
                ev.at, ev.act = job["crash"], lambda: os._exit(17)
            head = {"what": None, "bad": None}
            body = b""
            try:
                try:
                    x = pickle.loads(job["body"])
                except Exception as e:
                    head["bad"] = ["unpickle", sim.describe(e)]
                else:
                    x = self.copied(x, job["copy"], proto, head)
                    if lib is None and job["do"] != "relay":
                        lib = repo.Lib(again=True)
                    res = self.work(lib, job, x, ev, proto, head)
                    head["what"] = details(res) if job["gives"] == "outcome" or isinstance(res, BaseException) else ["tree"]
                    try:
                        body = res if isinstance(res, bytes) else pickle.dumps(res, proto)
                    except Exception as e:
                        head["bad"] = ["pickle", sim.describe(e)]
            except Exception as e:       # of the harness
                head["harness"] = repr(e)
            ev.act = None
            head["n"] = ev.n
            proc.send(self.rw, (head, body))

    @staticmethod
    def copied(x, how, proto, head):
        if how in ("copy", "deepcopy", "again"):
            try:
                y = copy.copy(x) if how == "copy" else copy.deepcopy(x) if how == "deepcopy" else pickle.loads(pickle.dumps(x, proto))
            except RecursionError:
                return x
            except Exception as e:
                head["bad"] = [how, sim.describe(e)]
                return x
            if isinstance(x, (str, BaseException)) and details(x) != details(y):
                head["bad"] = [how, ["changed", details(x), details(y)]]
            return y
        return x

    @staticmethod
    def work(lib, job, x, ev, proto, head):
        do = job["do"]
        try:
            if do == "relay":
                return x
            if do == "convert":
                return lib.converter().convert(x)
            if do == "tree":
                return sim._Whole(lib, x).convert().strip()
            els = lib.parse_adapter().convert(x)
            if do == "used":
                try:
                    sim._Whole(lib, els).convert()
                except Exception:
                    pass
            elif do == "snapshot" and not job["crash"]:
                box = []

                def snap():
                    try:
                        box.append(pickle.dumps(els, proto))
                    except RecursionError:
                        pass
                    except Exception as e:
                        head["bad"] = ["pickle in the middle of a conversion", sim.describe(e)]
                ev.at, ev.act = ev.n + job["snap"], snap
                try:
                    sim._Whole(lib, els).convert()
                except Exception:
                    pass
                ev.act = None
                if box:
                    head["snapped"] = 1
                    return box[0]
            return els
        except Exception as e:
            e.__traceback__ = e.__context__ = None
            return e

    # ------------------------------------------------------ in the coordinator
    def ask(self, job):
        """(head, body), or None when the process ended instead."""
        proc.send(self.jw, job)
        st, res = proc.recv(self.rr, proc._real_time() + 60)
        if st == "ok":
            return res
        if st == "timeout":
            return {"what": None, "bad": ["hang", ["no result within a minute"]], "n": 0}, b""
        self.end()
        return None

    def end(self):
        if self.pid:
            for fd in (self.jw, self.rr):
                os.close(fd)
            import signal
            try:
                os.kill(self.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.waitpid(self.pid, 0)
            self.pid = 0


class Pool:
    def __init__(self, plan):
        self.plan = plan
        self.rng = random.Random(plan["net"])
        self.now = 0.0
        self.queue, self.seq, self.sent = [], 0, 0
        self.log, self.faults, self.bad = [], {}, []
        self.lib = None
        self.nodes, self.served, self.mem = [], [], []
        self.events = self.snapshots = 0
        self.results = {}
        if plan["warm"]:
            self.lib = repo.Lib()
            for d in plan["docs"][:2]:
                try:
                    self.lib.converter().convert(D.render(d))
                except Exception:
                    pass
        for spec in plan["nodes"]:
            self.nodes.append(Node(spec["cold"], self.lib, plan["proto"]))
            self.served.append(0)
        self.net = {}
        for m, kind, arg in plan["faults"]:
            self.net.setdefault(m, []).append((kind, arg))
        self.crash = {(n, k): e for n, k, e in plan["crash"]}

    def count(self, what):
        self.faults[what] = self.faults.get(what, 0) + 1

    def at(self, t, *what):
        self.seq += 1
        heapq.heappush(self.queue, (t, self.seq, what))

    def send(self, *what):
        """A message: it arrives once, unless the plan has other ideas."""
        m, self.sent = self.sent, self.sent + 1
        times = [self.now + 0.001 + self.rng.random() * SPAN]
        for kind, arg in self.net.get(m, []):
            self.count({"lose": "message lost", "dup": "message doubled", "late": "message delayed"}[kind])
            if kind == "lose":
                times = []
            elif kind == "dup":
                times = times + [self.now + arg]
            else:
                times = [t + arg for t in times]
        for t in times:
            self.at(t, *what)

    # --------------------------------------------------------------- stages
    def stages(self, how):
        return {"convert": ["convert"], "staged": ["parse", "tree"], "used": ["used", "tree"], "snapshot": ["snapshot", "tree"]}[how]

    def dispatch(self, j):
        job = self.state[j]
        stages = self.stages(self.plan["jobs"][j][1])
        do = "relay" if job["relay"] else stages[job["stage"]]
        node = self.rng.randrange(len(self.nodes))
        job["try"] += 1
        self.send("deliver", node, j, job["try"], job["stage"], do, job["body"])
        self.at(self.now + TIMEOUT, "timeout", j, job["try"])

    def go(self):
        plan = self.plan
        self.state = []
        for d, how in plan["jobs"]:
            self.state.append({"stage": 0, "body": pickle.dumps(D.render(plan["docs"][d]), plan["proto"]), "try": 0, "done": False, "relay": False, "relayed": 0, "head": None})
        for j in range(len(plan["jobs"])):
            self.dispatch(j)
        stop = len(plan["jobs"]) * 40 + 4 * (len(plan["faults"]) + len(plan["crash"])) * 20 + 200
        n = 0
        while self.queue and not self.bad and any(not s["done"] for s in self.state) or (self.queue and not self.bad and self.queue[0][2][0] != "timeout" and n < stop):
            n += 1
            if n > stop:
                self.bad.append(["stuck", f"{sum(not s['done'] for s in self.state)} of {len(self.state)} documents without an outcome after {n} events"])
                break
            t, _, what = heapq.heappop(self.queue)
            self.now = max(self.now, t)
            getattr(self, what[0])(*what[1:])
        for nd in self.nodes:
            nd.end()
        if not self.bad and any(not s["done"] for s in self.state):
            self.bad.append(["stuck", "documents without an outcome although nothing is left to do"])

    def timeout(self, j, nth):
        s = self.state[j]
        if not s["done"] and s["try"] == nth:
            self.count("message sent again")
            self.dispatch(j)

    def rejoin(self, i):
        self.count("worker restarted")
        self.nodes[i] = Node(self.plan["nodes"][i]["cold"], self.lib, self.plan["proto"])

    def deliver(self, i, j, nth, stage, do, body):
        nd = self.nodes[i]
        if not nd.pid:
            self.count("message to a dead worker")
            return
        k = self.served[i]
        self.served[i] += 1
        s = self.plan["jobs"][j]
        how = COPIES[C.derive(self.plan["net"], j, k) % len(COPIES)]
        crash = self.crash.get((i, k), 0)
        gives = "outcome" if do in ("convert", "tree", "relay") else "tree"
        res = nd.ask({"do": do, "body": body, "copy": how if how != "relay" else "none", "crash": crash, "gives": gives, "snap": 1 + C.derive(self.plan["net"], "snap", j) % 400})
        self.log.append([round(self.now, 4), i, j, stage, do, None if res is None else res[0]["what"]])
        if res is None:
            if not crash:
                self.bad.append(["worker-died", f"worker {i} ended by itself during {do}", j])
                return
            self.count("worker crashed")
            self.at(self.now + self.plan["nodes"][i]["rejoin"], "rejoin", i)
            return
        head, answer = res
        self.events += head["n"]
        self.snapshots += head.get("snapped", 0)
        if "harness" in head:
            raise proc.HarnessError(head["harness"])
        if head["bad"]:
            self.bad.append([head["bad"][0], head["bad"][1], j])
            return
        self.send("answer", j, nth, stage, do, head, answer)

    def answer(self, j, nth, stage, do, head, answer):
        """At the coordinator; answers to earlier tries count as well, and must not differ."""
        s = self.state[j]
        if do == "relay" or head["what"] != ["tree"]:
            try:
                x = pickle.loads(answer)
            except Exception as e:
                self.bad.append(["unpickle", sim.describe(e), j])
                return
            got = details(x)
            if got != head["what"] and head["what"] != ["tree"]:
                self.bad.append(["changed", [head["what"], got], j])
                return
            self.results.setdefault(j, []).append(got[:3])
            if s["done"]:
                return
            if not s["relayed"] and C.derive(self.plan["net"], "relay", j) % 4 == 0:
                s["relay"], s["relayed"], s["body"] = True, 1, answer       # by way of another worker
                self.dispatch(j)
                return
            s["done"] = True
        elif stage == s["stage"] and not s["done"] and not s["relay"]:
            s["stage"] += 1
            s["body"] = answer
            self.dispatch(j)


def simulate(out, plan):
    seams.install(0)
    repo.gran = "line"
    pool = Pool(plan)
    try:
        pool.go()
    finally:
        for nd in pool.nodes:
            nd.end()
    hist = [{"op": "job", "t": 0, "i": j, "d": plan["jobs"][j][0], "how": plan["jobs"][j][1], "outs": outs} for j, outs in sorted(pool.results.items())]
    return {"hist": hist, "bad": pool.bad, "fatal": None, "digest": "%016x" % C.derive(pool.log, pool.bad, sorted(pool.faults.items())), "itl": "%016x" % C.derive([l[1:5] for l in pool.log]),
            "switches": 0, "steps": pool.events, "sim_s": pool.now, "faults": pool.faults, "fired": [[0, k, v] for k, v in sorted(pool.faults.items())], "n": [],
            "probes": {"messages": pool.sent, "jobs done by workers": len(pool.log), "trees copied in the middle of their conversion": pool.snapshots}}


class C18(P.Prop):
    id = "C18"
    battery = False
    rule = ("A run is a pool of one to four worker processes (real processes, some with a cold library) that convert, or parse and hand the tree on, behind a simulated network that delays, reorders, loses and doubles messages, "
            "while workers crash at seeded events and are replaced; documents, trees and outcomes are pickled, copied and relayed. Non-trivial: a message fault or a crash happened, or a tree travelled.")
    measure = "distinct orders of deliveries (worker, job, stage)"
    real = ["mathml_to_latex (all modules, from /repo's working tree)", "xml.dom.minidom / pyexpat / re", "pickle and copy", "worker processes (fork) of CPython 3.12"]
    stub = ["the network between coordinator and workers, and its clock", "crashes (the worker ends itself at the planned event)", "the coordinator (retransmission, at-least-once delivery)"]
    assumptions = ["pickle protocols 2 to 5", "one job at a time per worker", "trees nested so deeply that copying exhausts the stack are not demanded to copy"]
    quick_chunks = 96

    def chunk(self, rng, ctx, idx):
        docs = P.pool(rng, ctx, rng.choice([4, 8]), limit=3000)
        docs += [{"raw": t} for t in rng.sample(D.BROKEN, 3) if P.usable(ctx, {"raw": t})]
        from . import battery as B
        docs += [{"raw": B.DOCS[(idx * 12 + i) % len(B.FEATURES)]} for i in range(12)]
        for _ in range(6):
            jobs = [[d, rng.choice(["convert", "convert", "staged", "used", "snapshot"])] for d in rng.sample(range(len(docs)), rng.choice([4, 8, 14]) if len(docs) > 14 else 4)]
            jobs += [[d, rng.choice(["convert", "staged"])] for d, _ in rng.sample(jobs, 2)]       # the same document twice
            nodes = [{"cold": int(rng.random() < 0.4), "rejoin": rng.choice([0.01, 1.0, 50.0])} for _ in range(rng.choice([1, 2, 3, 4]))]
            m = len(jobs) * 5
            faults = [[rng.randrange(m), rng.choice(["lose", "dup", "late"]), rng.choice([0.001, 0.2, 20.0, 100.0])] for _ in range(rng.choice([0, 1, 4, 10]))]
            crash = [[rng.randrange(len(nodes)), rng.randrange(len(jobs) * 2 // len(nodes) + 1), 1 + int(rng.random() ** 2 * 900)] for _ in range(rng.choice([0, 1, 2, 5]))]
            yield {"docs": docs, "jobs": jobs, "nodes": nodes, "proto": rng.choice([2, 3, 4, 5, 5, 5]), "warm": int(rng.random() < 0.6), "net": rng.randrange(1 << 30), "faults": faults, "crash": crash}

    def run(self, ctx, plan):
        return proc.run_child(simulate, plan, timeout=80)

    def nontrivial(self, plan, res):
        return bool(res["faults"]) or any(h != "convert" for _, h in plan["jobs"])

    def judge(self, ctx, plan, res, stats):
        for b in res["bad"]:
            doc = D.render(plan["docs"][plan["jobs"][b[2]][0]]) if len(b) > 2 else None
            cls = "pool-stuck" if b[0] in ("stuck", "worker-died", "hang") else "does-not-travel"
            return {"class": cls, "detail": f"{b[0]}: {b[1]}"[:1500], "document": doc, "how": plan["jobs"][b[2]][1] if len(b) > 2 else None}
        for r in res["hist"]:
            for o in r["outs"]:
                stats.add("judged")
                v = self.mismatch(ctx, plan, dict(r, out=o), what="outcome of the pool differs from the document converted alone in a new process")
                if v:
                    return dict(v, how=r["how"])
        if len(res["hist"]) < len(plan["jobs"]):
            return {"class": "pool-stuck", "detail": "a document has no outcome"}
        return None

    def sample(self, plan, res):
        return {"jobs": [[D.render(plan["docs"][d])[:150], h] for d, h in plan["jobs"][:3]], "nodes": plan["nodes"], "faults": plan["faults"][:4], "crashes": plan["crash"][:4], "outcomes": [r["outs"][0] for r in res["hist"][:3]]}

    def shrinks(self, plan):
        for key in ("faults", "crash", "jobs", "nodes"):
            yield from C.shrink_list(plan, key, 1 if key in ("jobs", "nodes") else 0)
        for j, (d, how) in enumerate(plan["jobs"]):
            if how != "convert":
                p = C.copy(plan)
                p["jobs"][j][1] = "convert" if how == "staged" else "staged"
                yield p
        if len(plan["jobs"]) <= 2:
            for d in {d for d, _ in plan["jobs"]}:
                for doc in C.shrink_doc(plan["docs"][d]):
                    p = C.copy(plan)
                    p["docs"][d] = doc
                    yield p
        used = sorted({d for d, _ in plan["jobs"]})
        if len(used) < len(plan["docs"]):
            p = C.copy(plan)
            p["docs"] = [plan["docs"][d] for d in used]
            for j in p["jobs"]:
                j[0] = used.index(j[0])
            yield p


P.ALL["C18"] = C18()
