"""The claimed properties: workload, fault space and oracle of each."""
import random

from . import battery as B
from . import campaign as C
from . import docs as D
from . import proc, sim

INTERRUPTS = ["keyboard", "keyboard", "exit", "custom", "cancelled", "deadline", "deadline", "timeout"]

REAL_PIPE = ["mathml_to_latex (all modules, from /repo's working tree)", "xml.dom.minidom / expatbuilder", "pyexpat", "re", "CPython 3.12 interpreter and real OS threads (parked and released by the scheduler)"]
STUB_STD = ["thread scheduling (seeded plan)", "threading locks, conditions and thread start (simulated)", "clocks, sleep and random numbers (virtual)", "automatic garbage collection (off; collections are planned events)"]


class Prop:
    id = ""
    level = "exploration"
    rule = ""
    measure = "distinct signatures of the executed schedule and fault trace"
    real = REAL_PIPE
    stub = STUB_STD
    assumptions = []
    quick_chunks = 100
    thorough_chunks = 3000
    battery = True

    def chunks(self, tier):
        return self.quick_chunks if tier == "quick" else self.thorough_chunks

    def wall_cap(self, tier):
        return 600 if tier == "quick" else 3 * 3600

    def run(self, ctx, plan):
        return ctx.run(plan)

    def may_die(self, plan):
        return False

    def nontrivial(self, plan, res):
        return bool(res.get("switches")) or bool(res.get("fired"))

    def signature(self, plan, res):
        return res["itl"]

    def shrinks(self, plan):
        return C.generic_shrinks(plan)

    def sample(self, plan, res):
        used = sorted({op["d"] for ops in plan["tasks"] for op in ops if "d" in op})
        return {"documents": [D.render(plan["docs"][d])[:200] for d in used[:3]],
                "tasks": [[f'{op["op"]} {op.get("d", "")}' for op in ops][:6] for ops in plan["tasks"]],
                "plan_actions": len(plan.get("actions", [])), "first_actions": plan.get("actions", [])[:4],
                "executed": {"switches": res.get("switches"), "fired": res.get("fired", [])[:3], "events": res.get("steps")},
                "outcomes": [r.get("out") for r in res.get("hist", [])][:3]}

    # -- oracle pieces
    def fatal(self, res):
        f = res.get("fatal")
        if f:
            return {"class": f[0], "detail": f[1]}
        return None

    def mismatch(self, ctx, plan, r, what="result differs from the document converted alone in a new process"):
        text = D.render(plan["docs"][r["d"]])
        exp = ctx.expect(text)
        if exp is None:
            return None          # the document alone already fails to terminate: decided by C05
        if r.get("out") != exp:
            return {"class": "wrong-result", "detail": what, "document": text, "expected": exp, "got": r.get("out"),
                    "task": r["t"], "op": r["i"], "kind": r["op"]}
        return None

    def sweep_mismatch(self, ctx, r, bs=None, outs=None, what="battery document differs from a new process"):
        """A series of battery documents against their outcomes in new processes."""
        for b, o in zip(bs or r["bs"], outs or r.get("outs", [])):
            exp = ctx.battery(b)
            if exp is not None and o != exp:
                return {"class": "wrong-result", "detail": what, "document": B.DOCS[b], "expected": exp, "got": o, "task": r["t"], "op": r["i"], "kind": "sweep"}
        return None

    def add_sweep(self, rng, plan, p):
        """Sometimes look afterwards at everything the library knows."""
        if rng.random() < p:
            plan["tasks"][0].append({"op": "sweep", "bs": B.selection(rng, 1, rng.choice([10, 40])), "c": rng.choice(["shared", "new"])})


def storm(rng):
    """What another thread, or a callback, may do while a conversion is suspended: a great deal."""
    k = rng.random()
    if k < 0.45:
        return {"op": "sweep", "bs": B.selection(rng, rng.choice([0, 1, 1]), rng.choice([10, 40])), "c": rng.choice(["shared", "new"])}
    if k < 0.75:
        return {"op": "bulk", "seed": rng.randrange(1 << 30), "k": rng.choice(["wide", "wide", "names"]), "n": rng.choice([1, 3, 6]), "w": rng.choice([60, 200]), "c": "shared"}
    return {"op": "bulk", "seed": rng.randrange(1 << 30), "k": rng.choice(["mix", "tok", "fail", "repair", "attr", "deep"]), "n": rng.choice([20, 130, 300, 600]), "c": "shared"}


def usable(ctx, doc, only_ok=False, limit=4000):
    text = D.render(doc)
    if len(text) > limit:
        return False
    r = ctx.ref(text)
    if r["out"] is None:
        return False
    return r["out"][0] == "ok" or not only_ok


def pool(rng, ctx, n, only_ok=False, profile=None, make=None, limit=4000, twins=0.3):
    prof = profile or D.gen_profile(rng)
    out = []
    for _ in range(n * 8):
        if len(out) >= n:
            break
        d = (make or D.gen_any)(rng, prof)
        if not usable(ctx, d, only_ok, limit):
            continue
        out.append(d)
        if twins and rng.random() < twins:
            out += family(rng, ctx, d, rng.choice([1, 1, 2, 4]), only_ok, limit)
    del out[n:]
    while len(out) < 2:
        out.append({"raw": f"<math><mi>{D.fresh_token(rng)}</mi></math>"})
    return out


def family(rng, ctx, doc, n, only_ok=False, limit=4000):
    """Documents that share nearly everything with doc, so that whatever is keyed by less than the whole document mixes them up."""
    out = []
    if rng.random() < 0.12:
        pair = D.doppel(rng)
        if all(usable(ctx, d, only_ok, limit) for d in pair):
            return pair
    base = doc
    if rng.random() < 0.4:
        long = "raw" not in doc and D.lengthen(rng, doc)
        if long and usable(ctx, long, only_ok, limit):
            base = long
            out.append(long)
    for _ in range(n * 3):
        if len(out) >= n + 1:
            break
        d = D.twin(rng, rng.choice([base] + out[-1:]))
        if d and usable(ctx, d, only_ok, limit):
            out.append(d)
    return out


GRANS = ["line"] * 5 + ["opcode"] * 3 + ["hook"] * 2


def warm(rng, p=0.25, top=1500):
    if rng.random() < p:
        return {"seed": rng.randrange(1 << 30), "n": int(2 ** rng.uniform(2, 10.5)) % top + 1, "k": rng.choice(["mix", "mix", "tok", "fail", "repair", "deep"])}
    return None


def no_table(doc):
    return "mtable" not in D.render(doc)


# ------------------------------------------------------------------------ C01
class C01(Prop):
    id = "C01"
    rule = ("A run is 2-40 simulated threads that convert generated documents (well-formed, repairable and broken ones) through shared, own or new converter objects in a cold "
            "or pre-warmed library, preempted at seeded lines, bytecodes or call points; in part of the runs a suspended conversion meets a storm: other threads convert hundreds of documents "
            "or a battery that touches every construct and symbol before it continues. Non-trivial: at least one preemption inside a conversion took effect.")
    measure = "distinct sequences of (task, successor, source location) of the preemptions that took effect"
    assumptions = ["preemption only at events of library code and of the standard library's xml package; code inside C functions is atomic, as under the GIL"]
    quick_chunks = 69

    def chunk(self, rng, ctx, idx):
        gran = rng.choice(GRANS)
        if idx % 3 == 2:
            yield from self.strata(rng, ctx, idx // 3, gran)
            return
        if idx % 12 == 4:
            yield from self.doppels(rng, ctx, gran)
            return
        docs = pool(rng, ctx, rng.choice([3, 6, 9]), limit=1500 if gran == "opcode" else 4000)
        style = rng.choice(["mix", "mix", "mix", "storm"])
        for _ in range(40):
            if style == "storm" or rng.random() < 0.1:
                yield self.stormy(rng, ctx, gran, docs)
                continue
            if rng.random() < 0.06:
                yield self.crowd(rng, ctx, gran, docs)
                continue
            nt = rng.choice([2, 2, 2, 3, 3, 4, 5])
            same = rng.random() < 0.3
            pick = [rng.randrange(len(docs)) for _ in range(2)]
            tasks = []
            for t in range(nt):
                ops = []
                for _ in range(rng.choice([1, 1, 2, 3])):
                    d = rng.choice(pick) if same else rng.randrange(len(docs))
                    ops.append({"op": "convert", "d": d, "c": rng.choice(["shared", "shared", "shared", "own", "new", "class"])})
                tasks.append(ops)
            plan = {"gran": gran, "docs": docs, "tasks": tasks, "first": rng.randrange(nt), "gc": rng.random() < 0.5}
            w = warm(rng, 0.2)
            if w:
                plan["warm"] = w
            info = C.event_plan(rng, ctx, plan)
            style_, acts = C.preemptions(rng, ctx, plan, info)
            if rng.random() < 0.2:
                for _ in range(rng.choice([1, 3])):
                    t = rng.randrange(nt)
                    n = C.pick_event(rng, info[t])
                    if n:
                        acts.append([t, n, rng.choice(["gc", "gc", "purge", "clock"]), rng.choice([1.0, 3600.0, -10.0, 1e6])])
                acts.sort(key=lambda a: (a[0], a[1]))
            plan["actions"] = acts
            plan["style"] = style_
            self.add_sweep(rng, plan, 0.1)
            yield plan

    def strata(self, rng, ctx, idx, gran):
        """Every construct, suspended at each of its lines in turn while another thread converts documents like it."""
        for b, e in C.strata(rng, ctx, idx, gran, docs=14, per=14):
            plan = {"gran": gran, "docs": [{"raw": B.DOCS[b]}], "first": 0, "lifo": 1, "style": "strata", "gc": rng.random() < 0.1,
                    "tasks": [[{"op": "convert", "d": 0, "c": "shared"}], [{"op": "sweep", "bs": C.near(rng, b), "c": rng.choice(["shared", "new"])}]], "actions": [[0, e, "sw", 1]]}
            if rng.random() < 0.3:      # known to the process already
                plan["tasks"][0].insert(0, {"op": "convert", "d": 0, "c": "shared"})
                n = ctx.ref(B.DOCS[b], gran)["n"]
                plan["actions"] = [[0, e + n, "sw", 1]]
            if rng.random() < 0.3:
                plan["tasks"][0].append({"op": "sweep", "bs": C.near(rng, b, 8, 4), "c": "shared"})
            yield plan

    def doppels(self, rng, ctx, gran):
        """A long document suspended while another thread converts one that is nearly the same."""
        for _ in range(16):
            docs = D.doppel(rng)
            if not all(usable(ctx, d, limit=1500 if gran == "opcode" else 9000) for d in docs):
                continue
            for e in C.rare_events(rng, ctx, D.render(docs[0]), gran, 10):
                plan = {"gran": gran, "docs": docs, "first": 0, "lifo": 1, "style": "doppel", "actions": [[0, e, "sw", 1]],
                        "tasks": [[{"op": "convert", "d": 0, "c": "shared"}, {"op": "convert", "d": 1, "c": "shared"}], [{"op": "convert", "d": d, "c": rng.choice(["shared", "new"])} for d in rng.choice([[1], [1], [1, 0], [0, 1]])]]}
                if rng.random() < 0.25:
                    d = rng.randrange(2)
                    plan["tasks"][0].insert(0, {"op": "convert", "d": d, "c": "shared"})
                    plan["actions"][0][1] += ctx.ref(D.render(docs[d]), gran)["n"]
                yield plan

    def stormy(self, rng, ctx, gran, docs):
        """One conversion, known to the process or not, suspended at several events; each time other threads do a great deal."""
        d = rng.randrange(len(docs))
        ops = [{"op": "convert", "d": d, "c": "shared"} for _ in range(rng.choice([1, 2, 2, 3]))]
        k = rng.choice([1, 3, 6, 10])
        plan = {"gran": gran, "docs": docs, "tasks": [ops] + [[storm(rng)] for _ in range(k)], "first": 0, "lifo": 1, "gc": rng.random() < 0.3}
        info = C.event_plan(rng, ctx, plan)
        acts, last = [], rng.random() < 0.6
        off, r = info[0][1][-1]
        for i in range(k):
            e = C.pick_event(rng, (r["n"], [(off, r)])) if last else C.pick_event(rng, info[0])
            if e:
                acts.append([0, e, "sw", i + 1])
        plan["actions"] = sorted(acts, key=lambda a: a[1])
        plan["style"] = "storm"
        return plan

    def crowd(self, rng, ctx, gran, docs):
        """Many conversions in progress at once."""
        nt = rng.choice([8, 12, 17, 24, 34, 40])
        one = rng.randrange(len(docs)) if rng.random() < 0.5 else None
        tasks = [[{"op": "convert", "d": rng.randrange(len(docs)) if one is None else one, "c": "shared"} for _ in range(rng.choice([1, 1, 2]))] for _ in range(nt)]
        plan = {"gran": gran, "docs": docs, "tasks": tasks, "first": 0, "style": "crowd"}
        info = C.event_plan(rng, ctx, plan)
        acts = []
        for t in range(nt):
            for _ in range(rng.choice([1, 1, 2])):
                e = C.pick_event(rng, info[t])
                if e:
                    acts.append([t, e, "sw", (t + 1) % nt])
        plan["actions"] = sorted(acts, key=lambda a: (a[0], a[1]))
        return plan

    def judge(self, ctx, plan, res, stats):
        f = self.fatal(res)
        if f:
            return f
        for r in res["hist"]:
            if r["op"] == "convert":
                stats.add("judged")
                v = self.mismatch(ctx, plan, r)
                if v:
                    return v
            elif r["op"] == "sweep":
                stats.add("judged", len(r["bs"]))
                v = self.sweep_mismatch(ctx, r)
                if v:
                    return v
        return None


# ------------------------------------------------------------------------ C02
class C02(Prop):
    id = "C02"
    rule = ("A run is one process history: dozens of conversions in a row (new, shared and long-lived converters and parsing adapters; good, "
            "repaired, failing and interrupted documents; bulk stretches of up to thousands of new documents; garbage collections, regex-cache purges, "
            "clock jumps), every probe compared with a new process; non-trivial: at least 3 earlier conversions in the process.")
    measure = "distinct histories (sequence of operations and documents)"
    quick_chunks = 64

    def chunk(self, rng, ctx, idx):
        for _ in range(6):
            prof = D.gen_profile(rng)
            docs = pool(rng, ctx, rng.choice([3, 6, 12, 24]), profile=prof, twins=rng.choice([0.2, 0.6, 1.0]))
            ops = []
            n = rng.choice([8, 20, 60, 90])
            bulk_left = rng.choice([0, 0, 1, 2])
            long_left = 1 if idx % 6 == 0 else 0
            for _ in range(n):
                k = rng.random()
                if k < 0.80:
                    ops.append({"op": "convert", "d": rng.randrange(len(docs)), "c": rng.choice(["shared", "shared", "own", "new", "class", "adapter", "adapter"])})
                elif k < 0.86:
                    ops.append({"op": "gc"})
                elif k < 0.89:
                    ops.append({"op": "purge"})
                elif k < 0.92:
                    ops.append({"op": "clock", "s": rng.choice([0.5, 61.0, 3601.0, 90000.0, 4e7, -3600.0])})
                elif k < 0.93:
                    ops.append({"op": "restart"})
                elif k < 0.94:
                    ops.append({"op": "sweep", "bs": B.selection(rng, rng.choice([0, 1, 3]), rng.choice([10, 40])), "c": rng.choice(["shared", "new", "adapter", "own"])})
                elif bulk_left:
                    bulk_left -= 1
                    m = rng.choice([30, 150, 300, 600, 1100, 2100])
                    if long_left:
                        m, long_left = rng.choice([4200, 8300, 10100]), 0
                    kind = rng.choice(["mix", "mix", "tok", "fail", "repair", "deep", "attr", "wide", "names"])
                    if kind in ("wide", "names"):
                        m = rng.choice([3, 12])
                    ops.append({"op": "bulk", "seed": rng.randrange(1 << 30), "n": m, "k": kind, "c": rng.choice(["shared", "new", "adapter"]),
                                "sample": sorted(rng.sample(range(m), 3))})
                    for _ in range(4):
                        ops.append({"op": "convert", "d": rng.randrange(len(docs)), "c": "shared"})
            if rng.random() < 0.3:
                d = rng.randrange(len(docs))
                ops += [{"op": "convert", "d": d, "c": rng.choice(["shared", "adapter"])} for _ in range(rng.choice([5, 40]))]
            if rng.random() < 0.7:
                last = range(len(B.DOCS)) if rng.random() < 0.25 else B.selection(rng, 2, 60)
                ops.append({"op": "sweep", "bs": rng.sample(list(last), len(last)), "c": rng.choice(["shared", "new", "adapter"])})
            plan = {"gran": rng.choice(["line", "hook"]), "docs": docs, "tasks": [ops], "actions": [], "gc": rng.random() < 0.4, "trace": False}
            if rng.random() < 0.4:
                plan["trace"] = True
                info = C.event_plan(rng, ctx, plan)
                for _ in range(rng.choice([1, 2, 5])):
                    e = C.pick_event(rng, info[0])
                    if e:
                        plan["actions"].append([0, e, "raise", rng.choice(INTERRUPTS + ["memory"])])
                plan["actions"].sort(key=lambda a: a[1])
            yield plan

    def nontrivial(self, plan, res):
        return len(res["hist"]) > 3

    def signature(self, plan, res):
        return C.derive(res["digest"])

    def judge(self, ctx, plan, res, stats):
        f = self.fatal(res)
        if f:
            return f
        for r in res["hist"]:
            if r["op"] == "convert" and not r.get("inj"):
                stats.add("judged")
                v = self.mismatch(ctx, plan, r, "result in a process with a history differs from a new process")
                if v:
                    return v
            elif r["op"] == "sweep":
                stats.add("judged", len(r["bs"]))
                v = self.sweep_mismatch(ctx, r, what="battery document in a process with a history differs from a new process")
                if v:
                    return v
            elif r["op"] == "bulk":
                op = plan["tasks"][0][r["i"]]
                if r["got"]:
                    want = {j for j, _ in r["got"]}
                    for j, text in enumerate(sim.bulk_texts(op)):
                        if j in want:
                            exp = ctx.expect(text)
                            stats.add("judged")
                            got = dict(map(tuple_first, r["got"]))[j]
                            if exp is not None and got != exp:
                                return {"class": "wrong-result", "detail": "document of a bulk stretch differs from a new process",
                                        "document": text, "expected": exp, "got": got, "op": r["i"], "index": j}
        return None


def tuple_first(x):
    return (x[0], x[1])


# ------------------------------------------------------------------------ C03
class C03(Prop):
    id = "C03"
    rule = ("A run interrupts one or more conversions at seeded events (line, bytecode or call point, in library or xml code) with KeyboardInterrupt, SystemExit, "
            "CancelledError, a BaseException or a deadline Exception, in one to three threads, and then converts the same and other documents again; "
            "non-trivial: an interruption was delivered inside a conversion.")
    measure = "distinct (exception class, source location, preemption) traces"
    quick_chunks = 96

    def chunk(self, rng, ctx, idx):
        gran = rng.choice(GRANS)
        if idx % 4 == 3:
            for b, e in C.strata(rng, ctx, idx // 4, gran, docs=14, per=12):
                yield {"gran": gran, "docs": [{"raw": B.DOCS[b]}], "first": 0, "gc": rng.random() < 0.2, "actions": [[0, e, "raise", rng.choice(INTERRUPTS)]],
                       "tasks": [[{"op": "convert", "d": 0, "c": "shared"}, {"op": "convert", "d": 0, "c": "shared"}, {"op": "sweep", "bs": C.near(rng, b), "c": rng.choice(["shared", "new"])}]]}
            return
        if idx % 16 == 6:
            for _ in range(14):
                docs = D.doppel(rng)
                if all(usable(ctx, d, limit=1500 if gran == "opcode" else 9000) for d in docs):
                    for e in C.rare_events(rng, ctx, D.render(docs[0]), gran, 9):
                        yield {"gran": gran, "docs": docs, "first": 0, "actions": [[0, e, "raise", rng.choice(INTERRUPTS)]], "tasks": [[{"op": "convert", "d": d, "c": "shared"} for d in (0, 1, 0)]]}
            return
        docs = pool(rng, ctx, rng.choice([3, 6]), limit=1500 if gran == "opcode" else 4000)
        for _ in range(45):
            nt = rng.choice([1, 1, 1, 2, 3])
            tasks = []
            for t in range(nt):
                d = rng.randrange(len(docs))
                c = rng.choice(["shared", "shared", "own", "new", "adapter"])
                ops = [{"op": "convert", "d": d, "c": c}]
                for _ in range(rng.choice([1, 2, 3])):
                    ops.append({"op": "convert", "d": rng.choice([d, rng.randrange(len(docs))]), "c": rng.choice([c, "shared", "new"])})
                tasks.append(ops)
            plan = {"gran": gran, "docs": docs, "tasks": tasks, "gc": rng.random() < 0.4, "first": rng.randrange(nt)}
            w = warm(rng, 0.08, 300)
            if w:
                plan["warm"] = w
            info = C.event_plan(rng, ctx, plan)
            acts = []
            if nt > 1:
                _, acts = C.preemptions(rng, ctx, plan, info)
            for _ in range(rng.choice([1, 1, 1, 2, 4])):
                t = rng.randrange(nt)
                e = C.pick_event(rng, info[t])
                if e:
                    acts.append([t, e, "raise", rng.choice(INTERRUPTS)])
            acts.sort(key=lambda a: (a[0], a[1]))
            plan["actions"] = acts
            self.add_sweep(rng, plan, 0.25)
            yield plan

    def judge(self, ctx, plan, res, stats):
        f = self.fatal(res)
        if f:
            return f
        for r in res["hist"]:
            if r["op"] == "sweep":
                stats.add("judged", len(r["bs"]))
                v = self.sweep_mismatch(ctx, r, what="battery document after an interrupted conversion differs from a new process")
                if v:
                    v["class"] = "trace-left"
                    return v
            if r["op"] != "convert":
                continue
            stats.add("judged")
            if r.get("inj"):
                stats.add("interruptions judged")
                if not r.get("same"):
                    return {"class": "interruption-lost", "detail": f"{r['kind']} delivered at {r['at']} did not reach the caller", "got": r["out"],
                            "document": D.render(plan["docs"][r["d"]]), "task": r["t"], "op": r["i"]}
            else:
                v = self.mismatch(ctx, plan, r, "conversion after (or beside) an interrupted one differs from a new process")
                if v:
                    v["class"] = "trace-left"
                    return v
        return None

    def nontrivial(self, plan, res):
        return bool(res["fired"])


# ------------------------------------------------------------------------ C04
class C04(Prop):
    id = "C04"
    rule = ("A run strikes conversions with resource shortage: MemoryError/RecursionError raised at a seeded event, a real allocation failure inside the interpreter "
            "(n-th allocation, once, for a stretch or from then on), a stack with only r free frames, or a parser that reports out of memory; each is followed by the same and "
            "other documents without the fault; non-trivial: a shortage surfaced or an injected fault fired.")
    measure = "distinct (fault kind, place, outcome class) traces"
    stub = STUB_STD + ["memory allocator hooks (_testcapi.set_nomemory), recursion limit, expat parser faults (proxy around the real parser)"]
    assumptions = ["a run in which the interpreter itself aborts under an injected allocation failure is discarded (counted)"]
    quick_chunks = 140

    def chunk(self, rng, ctx, idx):
        if idx % 4 == 3:
            yield from self.strata(rng, ctx, idx // 4)
            return
        mode = rng.choice(["event", "event", "nomem", "nomem", "squeeze", "squeeze", "parser"])
        gran = rng.choice(GRANS) if mode == "event" else "line"
        prof = D.gen_profile(rng)
        if mode == "squeeze":
            prof["depth"] = rng.choice([3, 6, 9])
        docs = pool(rng, ctx, rng.choice([3, 5]), profile=prof, limit=1500 if gran == "opcode" else 4000)
        if mode == "squeeze":
            for tag in rng.sample(["mrow", "msqrt", "menclose", "mfenced", "mstyle", "mtd", "maction", "mfrac", "msup", "mtable"], 4):
                k = rng.choice([5, 20, 60])
                node = ["mi", [], "x"]
                for _ in range(k):
                    node = [tag, [], [node] if tag not in ("mfrac", "msup") else [node, ["mn", [], "2"]]]
                d = {"t": ["math", [], [node]]}
                if usable(ctx, d):
                    docs.append(d)
            tok = lambda: ["math", [], [["mi", [], D.fresh_token(rng)]]]  # noqa: E731
            docs.append({"t": tok(), "outer": ["x"] * rng.choice([1, 3, 8]), "more": [tok() for _ in range(rng.choice([1, 2]))]})
            docs.append({"t": ["math", [], [D.nest(rng.choice(D.UNARY), [["mtext", [], "x\u00e9 &#x3B1;"]])]]})
            docs = [d for d in docs if usable(ctx, d)]
        for _ in range(40):
            d = rng.randrange(len(docs))
            c = rng.choice(["shared", "own", "new"])
            first = {"op": "convert", "d": d, "c": c}
            follow = [{"op": "convert", "d": d, "c": c}, {"op": "convert", "d": rng.randrange(len(docs)), "c": "shared"}]
            plan = {"gran": gran, "docs": docs, "actions": [], "gc": rng.random() < 0.3, "trace": mode == "event", "mode": mode}
            if mode == "squeeze" and rng.random() < 0.3:
                # the second stage alone, with a stack of its own
                plan["trees"] = [d]
                path = [0] + [rng.randrange(9) for _ in range(rng.choice([0, 1, 2]))] if no_table(docs[d]) and rng.random() < 0.5 else None
                op = {"op": "tree", "d": d, "c": "new"}
                if path:
                    op["path"] = path
                plan["tasks"] = [[dict(op, squeeze=rng.randrange(2, 40)) for _ in range(rng.choice([1, 3]))] + [op] + follow]
                yield plan
                continue
            if mode == "event":
                plan["tasks"] = [[first] + follow]
                info = C.event_plan(rng, ctx, dict(plan, tasks=[[first]]))
                for _ in range(rng.choice([1, 1, 2])):
                    e = C.pick_event(rng, info[0])
                    if e:
                        plan["actions"].append([0, e, "raise", rng.choice(["memory", "memory", "recursion"])])
                plan["actions"].sort(key=lambda a: a[1])
            else:
                ops = []
                for _ in range(rng.choice([1, 2, 4])):
                    f = dict(first, d=rng.choice([d, rng.randrange(len(docs))]))
                    if mode == "nomem":
                        size = len(D.render(docs[f["d"]]))
                        f["nomem"] = [int(2 ** rng.uniform(0, 6 + min(6, size / 120))), rng.choice([1, 1, 1, 2, 5, 50, 0])]
                    elif mode == "squeeze":
                        f["squeeze"] = rng.choice([rng.randrange(3, 40), rng.randrange(3, 40), rng.randrange(20, 250)])
                    else:
                        f["parser"] = [rng.choice([None, None, "early/memory", "mid/memory", "late/memory", "early/recursion", "mid/recursion",
                                                   "mid/expat:1:%d" % rng.randrange(400), "early/expat:1:0"]) for _ in range(rng.choice([1, 2, 5, 6]))]
                    ops.append(f)
                plan["tasks"] = [ops + follow]
            self.add_sweep(rng, plan, 0.2)
            yield plan

    def strata(self, rng, ctx, idx):
        """Every construct, short of memory or stack at each of its lines in turn."""
        gran = rng.choice(GRANS)
        for b, e in C.strata(rng, ctx, idx, gran, docs=11, per=5):
            op = {"op": "convert", "d": 0, "c": "shared"}
            plan = {"gran": gran, "docs": [{"raw": B.DOCS[b]}], "actions": [], "gc": rng.random() < 0.2, "trace": False}
            after = [op, {"op": "sweep", "bs": C.near(rng, b, 8, 6), "c": rng.choice(["shared", "new"])}]
            k = rng.random()
            if k < 0.5:
                plan.update(mode="event", trace=True, actions=[[0, e, "raise", rng.choice(["memory", "memory", "recursion"])]], tasks=[[op] + after])
            elif k < 0.75:
                room = rng.randrange(3, 45)
                plan.update(mode="squeeze", tasks=[[dict(op, squeeze=room + d) for d in range(rng.choice([1, 3, 6]))] + after])
            elif k < 0.85:
                plan.update(mode="squeeze", trees=[0], tasks=[[{"op": "tree", "d": 0, "c": "new", "squeeze": rng.randrange(2, 30)} for _ in range(3)] + [{"op": "tree", "d": 0, "c": "new"}] + after])
            else:
                start = int(2 ** rng.uniform(0, 7 + min(5, len(B.DOCS[b]) / 120)))
                plan.update(mode="nomem", tasks=[[dict(op, nomem=[start, rng.choice([1, 1, 2, 5, 50, 0])])] + after])
            yield plan

    def may_die(self, plan):
        return any("nomem" in op for ops in plan["tasks"] for op in ops)

    def nontrivial(self, plan, res):
        return bool(res["fired"]) or any(r.get("struck") or any(a.startswith("fault") for a in r.get("attempts", [])) for r in res["hist"])

    def signature(self, plan, res):
        return C.derive(res["itl"], [(r.get("out") or [0])[:2] if (r.get("out") or [0])[0] != "ok" else "ok" for r in res["hist"]],
                        [[op.get("nomem"), op.get("squeeze"), op.get("parser"), op.get("d")] for ops in plan["tasks"] for op in ops],
                        [D.render(plan["docs"][op["d"]]) for ops in plan["tasks"] for op in ops if "d" in op])

    def judge(self, ctx, plan, res, stats):
        f = self.fatal(res)
        if f:
            return f
        for r in res["hist"]:
            op = plan["tasks"][r["t"]][r["i"]]
            if r["op"] == "sweep":
                stats.add("judged", len(r["bs"]))
                v = self.sweep_mismatch(ctx, r, what="battery document after a resource shortage differs from a new process")
                if v:
                    v["class"] = "wrong-after-shortage"
                    return v
                continue
            stats.add("judged")
            struck = bool(r.get("inj")) or "nomem" in op or "squeeze" in op or any(a.startswith("fault") for a in r.get("attempts", []))
            exp = ctx.ref(D.render(plan["docs"][r["d"]]), path=r["path"])["out"] if "path" in r else ctx.expect(D.render(plan["docs"][r["d"]]))
            if exp is None:
                continue
            if struck:
                stats.add("conversions under shortage")
                if r["out"][0] == "exc":
                    stats.add("shortage ended in an exception")
                    continue
                stats.add("shortage survived with a result")
                if r["out"] != exp:
                    return {"class": "wrong-under-shortage", "detail": "returned something other than the document's LaTeX under resource shortage",
                            "document": D.render(plan["docs"][r["d"]]), "expected": exp, "got": r["out"], "op": op}
            elif r["out"] != exp:
                return {"class": "wrong-after-shortage", "detail": "conversion after a resource shortage differs from a new process",
                        "document": D.render(plan["docs"][r["d"]]), "expected": exp, "got": r["out"], "op": op}
        return None


# ------------------------------------------------------------------------ C05
class C05(Prop):
    id = "C05"
    battery = False
    rule = ("A run gives conversions a simulated parser whose outcome per attempt is planned: the real parser's own verdict, a markup error of any code at any column, "
            "out of memory, or another exception; before, in the middle of or after the real parse; or no planned fault and a damaged document. "
            "Non-trivial: at least one attempt failed.")
    measure = "distinct (document, sequence of attempt outcomes) pairs"
    stub = STUB_STD + ["expat parser (proxy: real parser plus planned outcomes)"]
    quick_chunks = 130
    CODES = [1, 2, 3, 4, 4, 4, 5, 6, 7, 8, 9, 11, 13, 18, 27, 38, 43]

    def spec(self, rng, kind):
        when = rng.choice(["early", "mid", "late"])
        if kind == "markup":
            return f"{when}/expat:{rng.choice(self.CODES)}:{rng.randrange(1500)}"
        return when + "/" + rng.choice(["memory", "recursion", "value", "runtime", "attr", "type", "oserror", "deadline", "keyboard"])

    def chunk(self, rng, ctx, idx):
        docs = []
        prof = D.gen_profile(rng)
        for _ in range(8):
            d = D.gen_any(rng, prof)
            if len(D.render(d)) < 3000 and "<!DOCTYPE" not in D.render(d):     # a DOCTYPE costs a second parser within one parse
                docs.append(d)
        docs.append({"raw": rng.choice([b for b in D.BROKEN if "<!DOCTYPE" not in b])})
        d = D.gen_doc(rng, dict(prof, noise=0.6, size=15))
        d.pop("doctype", None)
        D.mark_damage(rng, d, rng.choice([1, 3, 8]))
        docs.append(d)
        for _ in range(45):
            ops = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                op = {"op": "convert", "d": rng.randrange(len(docs)), "c": rng.choice(["shared", "new", "own"])}
                k = rng.random()
                if k < 0.25:
                    op["parser"] = []
                elif k < 0.45:
                    op["parser"] = [self.spec(rng, "markup") for _ in range(rng.choice([1, 2, 3, 4, 5, 6]))]
                elif k < 0.60:
                    op["parser"] = []
                    op["default"] = self.spec(rng, "markup")
                elif k < 0.80:
                    op["parser"] = [self.spec(rng, "markup") for _ in range(rng.choice([0, 0, 1, 2, 3, 4]))] + [self.spec(rng, "other")]
                    if rng.random() < 0.5:
                        op["default"] = op["parser"][-1]
                else:
                    op["parser"] = [rng.choice([None, self.spec(rng, "markup"), self.spec(rng, "other")]) for _ in range(6)]
                ops.append(op)
            yield {"gran": "line", "docs": docs, "tasks": [ops], "actions": [], "trace": True, "budget": 1_500_000}

    def nontrivial(self, plan, res):
        return any(a != "ok" for r in res["hist"] for a in r.get("attempts", []))

    def signature(self, plan, res):
        return C.derive([[D.render(plan["docs"][r["d"]]), r.get("attempts")] for r in res["hist"]])

    def judge(self, ctx, plan, res, stats):
        f = self.fatal(res)
        if f:
            return f
        for r in res["hist"]:
            if "attempts" not in r:
                continue
            stats.add("judged")
            at = r["attempts"]
            stats.add(f"runs with {min(len(at), 9)} attempts")
            base = {"document": D.render(plan["docs"][r["d"]]), "attempts": at, "got": r["out"], "op": plan["tasks"][0][r["i"]]}
            if len(at) > 5:
                return dict(base, **{"class": "too-many-parses", "detail": f"{len(at)} parse attempts"})
            if r["out"][0] == "bad":
                return dict(base, **{"class": "silent-failure", "detail": f"returned {r['out'][1]} instead of text"})
            fails = [a for a in at if a != "ok"]
            if "ok" in at[:-1]:
                return dict(base, **{"class": "reparse", "detail": "parsed again after a successful parse"})
            for i, a in enumerate(at[:-1]):
                kind = a.split(":")[1]
                markup = a.startswith("fault:expat") or a == "real:ExpatError"
                if not markup:
                    return dict(base, **{"class": "retry-of-non-markup-failure", "detail": f"attempt {i + 1} failed with {kind} and was retried"})
            if at and at[-1] != "ok":
                if r["out"][0] == "ok":
                    return dict(base, **{"class": "silent-failure", "detail": "every parse failed and yet a result was returned"})
                if r["out"] not in r["raised"]:
                    return dict(base, **{"class": "foreign-error", "detail": "the error raised is not one the parser reported", "raised": r["raised"]})
        return None


# ------------------------------------------------------------------------ C06
class C06(Prop):
    id = "C06"
    battery = False
    rule = ("A run is a session in which documents pass a faulty channel that loses quoted attribute values (leaving name= or name) and are converted in one process; "
            "oracle: an error, or exactly the LaTeX of the document with those attributes left out; recovery is required for losses directly before '>' with at most four names. "
            "Non-trivial: at least one value was lost.")
    measure = "distinct damaged documents delivered"
    stub = STUB_STD + ["the channel between the producer of the document and the converter"]
    assumptions = ["the undamaged document is well-formed (checked with expat)", "a damaged start tag is not an empty-element tag where recovery is demanded"]
    quick_chunks = 80
    NAMES = ["a", "close", "open", "mathvariant", "m", "x", "mi", "separators", "notation", "t", "data-x", "actiontype", "bevelled", "math", "xml:lang", "h"]

    VALUES = ["bold", "(", "[", "1", "]", "a b", "x=y", "close", "true", "", ";", "toggle", "box", "r &gt; s", "k = 'v'"]
    BAIT = ["%s=", "set %s= to", "%s= ", " %s=%s", "%s =", "x %s y", "%s=&gt;", "&lt;mi %s=&gt;", "&lt;mi %s&gt;", "a %s= %s= b", "=%s=", "%s/", "5 &gt; %s= 4", "%s= /&gt;", "\u03b1 %s= \u03b2", "mml %s=>", "it's %s= x"]

    KIN = ["re%s", "%sx", "data-%s", "%s-x", "%s.y", "%s2", "%s_", "%s%s", "%s-%s"]

    def name(self, rng):
        n = rng.choice(self.NAMES)
        if rng.random() < 0.25:
            n = rng.choice(self.KIN)
            n = n.replace("%s", rng.choice(["open", "close", "a", "m", "mi", "class", "notation", "t", "w"]))
        if rng.random() < 0.08:
            n = rng.choice(["\u00e9t\u00e9", "\u03b1", "Open", "CLOSE", "_x", "math", "mml", "\u5b57"])
        return n

    def bait(self, rng, where):
        """Content that looks like a damaged attribute but is none."""
        s = rng.choice(self.BAIT)
        s = s.replace("%s", rng.choice(self.NAMES), 1).replace("%s", rng.choice(self.NAMES + ["width", "class"]))
        if where == "text":
            k = rng.random()
            if k < 0.12:
                return "<![CDATA[<mi " + s.replace("&gt;", ">").replace("&lt;", "<") + ">]]>"
            return s if k < 0.8 else s.replace("x", '"x"') + " 'q'"
        if where == "note":
            return rng.choice(["<!-- %s -->", "<!-- <mi %s> -->", "<?pi %s?>", "<!--%s-->"]) % s
        return s.replace("'", "") if where == "plain" else s

    def make(self, rng, prof):
        must = rng.random() < 0.5
        for _ in range(20):
            d = D.gen_doc(rng, dict(prof, noise=max(prof["noise"], 0.3), bad_arity=0.0))
            ns = [n for n in D.nodes(d)]
            # names that also occur as text, tag fragments or intact attributes
            for n in rng.sample(ns, min(len(ns), rng.choice([1, 2, 4]))):
                name = self.name(rng)
                if all(a[0] != name for a in n[1]):
                    val = rng.choice(self.VALUES) if rng.random() < 0.6 else self.bait(rng, rng.choice(["quot", "plain"]))
                    n[1].insert(rng.randrange(len(n[1]) + 1), [name, val, 0])
            for n in ns:
                if isinstance(n[2], str) and n[2] and n[0] in ("mtext", "mi", "mo", "ms", "mn") and rng.random() < 0.25:
                    n[2] = rng.choice(self.NAMES + ["a=b", "close =", "open= x", "= ="]) if rng.random() < 0.4 else self.bait(rng, "text")
                elif isinstance(n[2], list) and rng.random() < 0.06:
                    n[2].insert(rng.randrange(len(n[2]) + 1), ["!raw", [], self.bait(rng, "note")])
            if must:
                k = D.mark_damage(rng, d, rng.choice([1, 1, 2, 3, 6]), last_only=True, max_names=4)
                # one damaged attribute per tag is guaranteed by last_only
            else:
                k = D.mark_damage(rng, d, rng.choice([1, 2, 3, 6]))
            if not k:
                continue
            if rng.random() < 0.4:
                D.style_attributes(rng, d)
            names = set()
            for n in ns:
                for a in n[1]:
                    if a[2]:
                        names.add(a[0])
            d["must"] = int(must and len(names) <= 4)
            return d
        return None

    def chunk(self, rng, ctx, idx):
        for _ in range(8):
            prof = D.gen_profile(rng, bad_arity=0.0)
            docs = []
            for _ in range(12):
                d = self.make(rng, prof)
                if d is None or len(D.render(d)) > 4000:
                    continue
                whole = C.copy(d)
                for n in D.nodes(whole):
                    for a in n[1]:
                        a[2] = 0
                if wellformed(D.render(whole)) and wellformed(D.render(d, omit=True)):
                    docs.append(d)
            if not docs:
                continue
            ops = [{"op": "convert", "d": i, "c": rng.choice(["shared", "new", "adapter"])} for i in range(len(docs))]
            yield {"gran": "line", "docs": docs, "tasks": [ops], "actions": [], "trace": False}

    def nontrivial(self, plan, res):
        return True

    def signature(self, plan, res):
        return C.derive([D.render(plan["docs"][r["d"]]) for r in res["hist"]])

    def judge(self, ctx, plan, res, stats):
        f = self.fatal(res)
        if f:
            return f
        fl = stats.setdefault("faults", {})
        for r in res["hist"]:
            doc = plan["docs"][r["d"]]
            lost = sum(1 for n in D.nodes(doc) for a in n[1] if a[2] in (1, 2))
            fl["attribute value lost"] = fl.get("attribute value lost", 0) + lost
            if not lost:
                continue
            stats.add("judged")
            reduced = ctx.expect(D.render(doc, omit=True))
            if reduced is None:
                continue
            got = r["out"]
            if got == reduced:
                stats.add("recovered exactly")
                continue
            base = {"document": D.render(doc), "reduced": D.render(doc, omit=True), "expected": reduced, "got": got, "op": r["i"]}
            if got[0] == "exc":
                stats.add("refused with an error")
                if still_must(doc):
                    return dict(base, **{"class": "recovery-failed", "detail": "a repairable loss was not repaired"})
                continue
            return dict(base, **{"class": "recovery-altered-content", "detail": "recovery returned LaTeX that is not the document's minus the damaged attributes"})
        return None

    def sample(self, plan, res):
        return {"delivered": [D.render(plan["docs"][r["d"]])[:300] for r in res["hist"][:2]], "outcomes": [r["out"] for r in res["hist"][:2]]}


def still_must(doc):
    """Whether the recovery obligation of C06 holds for this damage."""
    if not doc.get("must"):
        return False
    names = set()
    for n in D.nodes(doc):
        for i, a in enumerate(n[1]):
            if a[2] in (1, 2):
                names.add(a[0])
                if i != len(n[1]) - 1 or not n[2]:
                    return False
    return 1 <= len(names) <= 4


def wellformed(text):
    import xml.parsers.expat as expat
    p = expat.ParserCreate()
    try:
        p.Parse(text.encode("utf-8"), True)
    except (expat.ExpatError, UnicodeEncodeError):
        return False
    return True


# ------------------------------------------------------------------------ C07
class C07(Prop):
    id = "C07"
    battery = False
    rule = ("A run is a session in which whole documents pass a faulty transport: cut off at a seeded position before the end of the root element, delivered twice in a row, "
            "glued to the start or the whole of another document or to debris; oracle: the conversion raises. Whole documents are interleaved as controls. "
            "Non-trivial: at least one torn or glued delivery.")
    measure = "distinct torn or glued texts delivered"
    stub = STUB_STD + ["the transport between the producer of the document and the converter"]
    assumptions = ["the delivered text is not well-formed as a whole (checked with expat), the original is"]
    quick_chunks = 130

    def chunk(self, rng, ctx, idx):
        for _ in range(8):
            prof = D.gen_profile(rng, bad_arity=0.0)
            base = []
            for _ in range(6):
                d = D.gen_doc(rng, prof)
                if rng.random() < 0.15:
                    d["head"] = rng.choice(self.HEADS)
                if rng.random() < 0.2:
                    d["tail"] = rng.choice([" ", "<!-- a > b -->", " <!-- <math> -->"])
                t = D.render(d)
                if len(t) < 4000 and wellformed(t) and usable(ctx, {"raw": t}, True):
                    base.append((d, t))
            docs, ops = [], []
            if not base:
                continue
            for _ in range(24):
                d, t = rng.choice(base)
                k = rng.random()
                core = t
                if d.get("tail"):
                    core = t[: len(t) - len(d["tail"])]
                if k < 0.42:
                    cut = self.cut(rng, core)
                    docs.append({"raw": core[:cut], "fault": "torn", "at": cut})
                elif k < 0.52:
                    # a write that was cut off and then repeated, whole or cut off again
                    cut = self.cut(rng, core)
                    again = rng.choice([t, rng.choice(base)[1]])
                    if rng.random() < 0.3:
                        again = again[: rng.randrange(1, len(again))]
                    docs.append({"raw": core[:cut] + rng.choice(["", "\n", " "]) + again, "fault": "torn and repeated"})
                elif k < 0.92:
                    sep = rng.choice(["", " ", "\n", "\n  ", "\t", "\r\n", "  "])
                    other = rng.choice(base)[1]
                    part = rng.random()
                    if part < 0.35:
                        rest, kind = t, "delivered twice"
                    elif part < 0.6:
                        rest, kind = other, "glued to another document"
                    elif part < 0.8:
                        rest, kind = other[: rng.randrange(1, len(other))], "glued to the start of another document"
                    else:
                        rest = rng.choice(["\x00", "\ufeff", "]]>", "<!DOCTYPE math>", "-->", "<!--", "<!-- x", "<?x", "<![CDATA[ ]]>", "\u00a0", "&nbsp;", "&#160;", "&#10;", "0", "\x1a", "\u200b", ";", "null",
                                           '<?xml version="1.0"?>' + other, "<!-- -->" + other, "<mspace/>", "<br/>", "<math/>", "</math>\n</math>", "</mrow></math>", "\\n", "EOF", "...",
                                           "<math><mi>q</mi>", "<mrow/>", '"', "'/>", "/>", "a=\"b\">", "<mi a=\"1\" b=>", "<mi b=>x</mi>", " x= >", "&", ".", "x", "=", "<foo>", "<foo/>", "</math>", "<mi>q</mi>", "&amp;", "a > b", "x=1 >", "<a b=>", "<a b>", "</root >", ">", "1 2 >", "<", "</ math>", "& >", "a= b >"])
                        kind = "debris after the document"
                    docs.append({"raw": t + sep + rest, "fault": kind})
                else:
                    docs.append({"raw": t, "fault": ""})
                if docs[-1]["fault"] and (wellformed(docs[-1]["raw"]) or not docs[-1]["raw"].strip()):
                    docs.pop()
                    continue
                ops.append({"op": "convert", "d": len(docs) - 1, "c": rng.choice(["shared", "new", "adapter"])})
            if ops:
                yield {"gran": "line", "docs": docs, "tasks": [ops], "actions": [], "trace": False}

    HEADS = ['<?xml version="1.0" encoding="utf-8"?>', "<!DOCTYPE math>", "<!-- c -->", "<!-- <math> -->", "\ufeff", '<?xml version="1.0"?>\n<!DOCTYPE math>\n', "<?pi <math>?>"]

    def cut(self, rng, t):
        k = rng.random()
        n = len(t)
        if k < 0.35:
            return rng.randrange(1, n)
        marks = [i for i, c in enumerate(t) if c in "<> \"=/"]
        if k < 0.9 and marks:
            return max(1, min(n - 1, rng.choice(marks) + rng.choice([0, 1])))
        return max(1, n - rng.randrange(1, min(n, 12)))

    def nontrivial(self, plan, res):
        return any(plan["docs"][r["d"]].get("fault") for r in res["hist"])

    def signature(self, plan, res):
        return C.derive([plan["docs"][r["d"]]["raw"] for r in res["hist"]])

    def judge(self, ctx, plan, res, stats):
        f = self.fatal(res)
        if f:
            return f
        fl = stats.setdefault("faults", {})
        for r in res["hist"]:
            doc = plan["docs"][r["d"]]
            if not doc.get("fault") or wellformed(doc["raw"]):
                v = self.mismatch(ctx, plan, r)
                stats.add("whole documents (controls)")
                if v:
                    return v
                continue
            stats.add("judged")
            fl[doc["fault"]] = fl.get(doc["fault"], 0) + 1
            if r["out"][0] != "exc":
                return {"class": "damaged-text-converted", "detail": doc["fault"], "document": doc["raw"], "got": r["out"], "op": r["i"]}
        return None

    def shrinks(self, plan):
        return torn_shrinks(plan)

    def sample(self, plan, res):
        return {"delivered": [[plan["docs"][r["d"]].get("fault"), plan["docs"][r["d"]]["raw"][:300]] for r in res["hist"][:3]], "outcomes": [r["out"] for r in res["hist"][:3]]}


def torn_shrinks(plan):
    """Keep the fault label; the oracle re-checks that the text is not well-formed."""
    for p in C.generic_shrinks(plan):
        for i, d in enumerate(p["docs"]):
            if "raw" in d and "fault" not in d:
                d["fault"] = plan["docs"][i].get("fault", "")
                if d["fault"] == "torn" or not d["raw"].strip():
                    d = None
        if all(x is not None for x in p["docs"]):
            yield p


# ------------------------------------------------------------------------ C08
class C08(Prop):
    id = "C08"
    rule = ("A run suspends conversions at seeded events and starts further conversions on the same thread from there (as a signal handler or finalizer would): one, hundreds, or a "
            "battery that touches every construct, and from within those further ones, up to forty levels deep; non-trivial: at least one nested conversion ran.")
    measure = "distinct (source locations of the nested calls) traces"
    quick_chunks = 130

    def chunk(self, rng, ctx, idx):
        gran = rng.choice(["line", "line", "opcode", "hook", "hook", "hook"])
        if idx % 4 == 3:
            for b, e in C.strata(rng, ctx, idx // 4, gran, docs=11, per=14):
                yield {"gran": gran, "docs": [{"raw": B.DOCS[b]}], "first": 0, "gc": rng.random() < 0.2,
                       "actions": [[0, e, "nest", {"op": "sweep", "bs": C.near(rng, b), "c": rng.choice(["shared", "new"])}]],
                       "tasks": [[{"op": "convert", "d": 0, "c": "shared"}] + ([{"op": "convert", "d": 0, "c": "shared"}] if rng.random() < 0.4 else [])]}
            return
        if idx % 16 == 6:
            for _ in range(14):
                docs = D.doppel(rng)
                if all(usable(ctx, d, limit=1500 if gran == "opcode" else 9000) for d in docs):
                    for e in C.rare_events(rng, ctx, D.render(docs[0]), gran, 9):
                        yield {"gran": gran, "docs": docs, "first": 0, "actions": [[0, e, "nest", 1]], "tasks": [[{"op": "convert", "d": 0, "c": "shared"}, {"op": "convert", "d": 1, "c": "shared"}]]}
            return
        docs = pool(rng, ctx, rng.choice([3, 6]), limit=1500 if gran == "opcode" else 4000)
        for _ in range(50):
            nt = rng.choice([1, 1, 1, 1, 2])
            tasks = []
            for t in range(nt):
                tasks.append([{"op": "convert", "d": rng.randrange(len(docs)), "c": rng.choice(["shared", "shared", "new", "class"])} for _ in range(rng.choice([1, 2]))])
            plan = {"gran": gran, "docs": docs, "tasks": tasks, "gc": rng.random() < 0.3}
            w = warm(rng, 0.1, 300)
            if w:
                plan["warm"] = w
            info = C.event_plan(rng, ctx, plan)
            acts = []
            if nt > 1:
                _, acts = C.preemptions(rng, ctx, plan, info)
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                t = rng.randrange(nt)
                e = C.pick_event(rng, info[t])
                if not e:
                    continue
                d = rng.choice([rng.randrange(len(docs)), tasks[t][0]["d"]])
                if rng.random() < 0.2:
                    acts.append([t, e, "nest", storm(rng)])
                    continue
                acts.append([t, e, "nest", d])
                if gran == "hook":
                    # events of the nested conversion continue the task's count: go deeper
                    base = e
                    for _ in range(rng.choice([0, 1, 1, 2, 3, 3, 8]) if rng.random() < 0.95 else rng.choice([17, 40])):
                        n = ctx.ref(D.render(docs[d]), gran)["n"]
                        if n < 2:
                            break
                        base += rng.randrange(1, n)
                        d = rng.randrange(len(docs))
                        acts.append([t, base, "nest", d])
            acts.sort(key=lambda a: (a[0], a[1]))
            plan["actions"] = acts
            self.add_sweep(rng, plan, 0.15)
            yield plan

    def nontrivial(self, plan, res):
        return any(r["op"] == "nested" for r in res["hist"]) or bool(res["fired"])

    def judge(self, ctx, plan, res, stats):
        f = self.fatal(res)
        if f:
            return f
        for r in res["hist"]:
            if r["op"] == "bulk":
                continue
            if r["op"] == "sweep":
                stats.add("judged", len(r["bs"]))
                v = self.sweep_mismatch(ctx, r, what="battery document (nested or afterwards) differs from a new process")
                if v:
                    return v
                continue
            stats.add("judged")
            v = self.mismatch(ctx, plan, r, "nested conversion differs from a new process" if r["op"] == "nested" else "conversion with nested ones inside differs from a new process")
            if v:
                return v
        return None


# ------------------------------------------------------------------------ C10
class C10(Prop):
    id = "C10"
    battery = False
    rule = ("A run converts documents (also with document types, external entities and entity bombs) under an interpreter audit hook, with process settings and standard "
            "streams compared before and after each call (or before the first and after the last of several that overlap in threads), while calls end normally, by errors, by seeded interruptions, memory or stack shortage; "
            "non-trivial: a fault fired or the document refers to external resources.")
    measure = "distinct (document, way of ending, source location) traces"
    stub = STUB_STD + ["standard output and error (in-memory files)"]
    assumptions = ["loading of Python modules by import is not counted as file access"]
    quick_chunks = 130
    DTDS = [
        '<!DOCTYPE math SYSTEM "file:///etc/passwd">', '<!DOCTYPE math PUBLIC "-//W3C//DTD MathML 2.0//EN" "http://127.0.0.1:9/mathml2.dtd">',
        '<!DOCTYPE math [<!ENTITY e SYSTEM "file:///etc/hostname">]>', '<!DOCTYPE math [<!ENTITY % p SYSTEM "http://127.0.0.1:9/p.dtd"> %p;]>',
        '<!DOCTYPE math [<!ENTITY e "local">]>', '<!DOCTYPE math [<!ENTITY a "xxxxxxxxxx"><!ENTITY b "&a;&a;&a;&a;&a;&a;&a;&a;"><!ENTITY e "&b;&b;&b;&b;">]>',
        '<!DOCTYPE math SYSTEM "\\\\host\\share\\x.dtd" [<!ENTITY e SYSTEM "ftp://127.0.0.1/x" NDATA q>]>']

    def chunk(self, rng, ctx, idx):
        gran = rng.choice(["line", "line", "opcode", "hook"])
        if idx % 4 == 3:
            # every construct, interrupted at each of its lines in turn
            for b, e in C.strata(rng, ctx, idx // 4, gran, docs=11, per=7):
                op = {"op": "convert", "d": 0, "c": rng.choice(["shared", "new"])}
                plan = {"gran": gran, "docs": [{"raw": B.DOCS[b]}], "watch": True, "tasks": [[op, op]], "actions": [[0, e, "raise", rng.choice(INTERRUPTS + ["memory", "recursion"])]]}
                if rng.random() < 0.3:
                    plan["tasks"], plan["watch"], plan["first"] = [[op], [op]], "whole", 0
                    f = 1 + rng.randrange(ctx.ref(B.DOCS[b], gran)["n"])
                    plan["actions"] = [[0, e, "sw", 1], [1, f, "sw", 0]] + ([[1, f + 1, "raise", "keyboard"]] if rng.random() < 0.3 else [])
                yield plan
            return
        docs = pool(rng, ctx, 4, limit=1500 if gran == "opcode" else 4000)
        for _ in range(3):
            body = rng.choice(["<mi>&e;</mi>", "<mi>x</mi>", "<mtext>&e; &e;</mtext><mo>+</mo>", '<mglyph src="http://127.0.0.1:9/g.png"/><mi href="file:///etc/passwd">q</mi>',
                               '<xi:include xmlns:xi="http://www.w3.org/2001/XInclude" href="file:///etc/passwd"/><mi>x</mi>'])
            docs.append({"raw": rng.choice(self.DTDS) + "<math>" + body + "</math>"})
        k = rng.choice([30, 100, 200, 320, 600, 1500])
        t = rng.choice(["mrow", "mrow", "msqrt", "mstyle", "mfenced"])
        docs.append({"raw": "<math>" + f"<{t}>" * k + "<mi>x</mi>" + f"</{t}>" * k + "</math>"})
        docs.append({"raw": "<math>" + "<mi>x</mi><mo>+</mo>" * rng.choice([50, 500]) + "</math>"})
        docs += [{"raw": B.DOCS[b]} for b in rng.sample(range(len(B.FEATURES)), 12)]
        docs = [d for d in docs if len(D.render(d)) > 4000 or ctx.ref(D.render(d))["out"] is not None]
        for _ in range(24):
            ops = [{"op": "convert", "d": rng.randrange(len(docs)), "c": rng.choice(["shared", "new"])} for _ in range(rng.choice([1, 2, 4, 8]))]
            if rng.random() < 0.25:
                yield self.overlapping(rng, ctx, gran, docs)
                continue
            plan = {"gran": gran, "docs": docs, "tasks": [ops], "actions": [], "watch": True, "gc": rng.random() < 0.3}
            mode = rng.random()
            if mode < 0.6:
                info = C.event_plan(rng, ctx, plan)
                for _ in range(rng.choice([1, 2])):
                    e = C.pick_event(rng, info[0])
                    if e:
                        plan["actions"].append([0, e, "raise", rng.choice(INTERRUPTS + ["memory", "recursion", "memory"])])
                plan["actions"].sort(key=lambda a: a[1])
            elif mode < 0.75:
                plan["trace"] = False
            yield plan

    def overlapping(self, rng, ctx, gran, docs):
        """Conversions that overlap in time, nested or not: the process is compared before the first and after the last."""
        small = [i for i, d in enumerate(docs) if len(D.render(d)) < 4000]
        nt = rng.choice([2, 2, 3, 4])
        tasks = [[{"op": "convert", "d": rng.choice(small), "c": rng.choice(["shared", "new"])} for _ in range(rng.choice([1, 1, 2]))] for _ in range(nt)]
        plan = {"gran": gran, "docs": docs, "tasks": tasks, "actions": [], "watch": "whole", "first": 0}
        info = C.event_plan(rng, ctx, plan)
        _, acts = C.preemptions(rng, ctx, plan, info)
        for t in range(nt):
            if rng.random() < 0.6:
                e = C.pick_event(rng, info[t])
                if e:
                    acts.append([t, e, "sw", (t + 1) % nt])
            if rng.random() < 0.15:
                e = C.pick_event(rng, info[t])
                if e:
                    acts.append([t, e, "raise", rng.choice(INTERRUPTS + ["memory"])])
        plan["actions"] = sorted(acts, key=lambda a: (a[0], a[1]))
        return plan

    def nontrivial(self, plan, res):
        return bool(res["fired"]) or bool(res["switches"]) or any("raw" in plan["docs"][r["d"]] for r in res["hist"])

    def signature(self, plan, res):
        return C.derive(res["itl"], [D.render(plan["docs"][r["d"]]) for r in res["hist"]], [r["out"][:2] for r in res["hist"]])

    def judge(self, ctx, plan, res, stats):
        f = self.fatal(res)
        if f:
            return f
        if res.get("side"):
            return {"class": "side-effect", "detail": "after overlapping conversions: " + "; ".join(res["side"][:4]), "documents": [D.render(plan["docs"][r["d"]])[:500] for r in res["hist"]][:4], "fired": res["fired"]}
        for r in res["hist"]:
            stats.add("judged")
            if r.get("side"):
                return {"class": "side-effect", "detail": "; ".join(r["side"][:4]), "document": D.render(plan["docs"][r["d"]]), "got": r["out"], "fired": res["fired"], "op": r["i"]}
        return None


# ------------------------------------------------------------------------ C11
class C11(Prop):
    id = "C11"
    battery = False
    rule = ("A run parses documents once and converts the resulting element trees repeatedly from one to four simulated threads, with seeded preemptions and interruptions, through new "
            "converters per conversion and through one converter object that is run again; non-trivial: a preemption or interruption took effect, or a tree was converted at least three times.")
    measure = "distinct preemption and interruption traces"
    quick_chunks = 150
    assumptions = ["trees that contain tables are converted from their root elements as returned by the parsing stage; others from any element"]

    def chunk(self, rng, ctx, idx):
        gran = rng.choice(["line", "line", "opcode", "hook"])
        if idx % 10 == 9:
            n = len(B.FEATURES)
            for _ in range(12):
                bs = B.selection(rng, 1, 60)
                yield {"gran": "line", "docs": [], "actions": [], "trace": False, "first": 0,
                       "tasks": [[{"op": "retree", "bs": bs, "seed": rng.randrange(1 << 30), "times": rng.choice([2, 3, 3, 12])}]]}
            return
        if idx % 5 == 3:
            yield from self.strata(rng, ctx, idx // 5, gran)
            return
        prof = D.gen_profile(rng)
        prof["tables"] = rng.choice([0.16, 0.36, 0.36])
        docs = pool(rng, ctx, rng.choice([2, 4]), profile=prof, make=lambda r, p: D.gen_doc(r, p) if r.random() < 0.9 else D.gen_any(r, p), limit=1500 if gran == "opcode" else 4000)
        for _ in range(40):
            nt = rng.choice([1, 2, 2, 3, 4])
            tree_ids = rng.sample(range(len(docs)), min(len(docs), rng.choice([1, 1, 2])))
            tasks = []
            reuse = rng.random() < 0.4
            part = {}
            for d in tree_ids:
                # a converter of an element inside the tree; a nested table depends on the table around it, so only without tables
                if no_table(docs[d]) and rng.random() < 0.5:
                    part[d] = [0] + [rng.randrange(12) for _ in range(rng.choice([1, 1, 2, 3, 4]))]
            for t in range(nt):
                ops = []
                for _ in range(rng.choice([1, 2, 3])):
                    op = {"op": "tree", "d": rng.choice(tree_ids), "c": "reuse" if reuse and rng.random() < 0.7 else "new"}
                    if op["d"] in part and rng.random() < 0.7:
                        op["path"] = part[op["d"]]
                    ops.append(op)
                tasks.append(ops)
            plan = {"gran": gran, "docs": docs, "tasks": tasks, "trees": tree_ids, "first": rng.randrange(nt)}
            info = C.event_plan(rng, ctx, plan)
            acts = []
            if nt > 1:
                _, acts = C.preemptions(rng, ctx, plan, info)
            if rng.random() < 0.5:
                for _ in range(rng.choice([1, 1, 2])):
                    t = rng.randrange(nt)
                    e = C.pick_event(rng, info[t], in_repo=1)
                    if e:
                        acts.append([t, e, "raise", rng.choice(INTERRUPTS + ["memory"])])
            acts.sort(key=lambda a: (a[0], a[1]))
            plan["actions"] = acts
            yield plan

    def strata(self, rng, ctx, idx, gran):
        """The tree of every construct, abandoned or shared at each of its lines in turn."""
        n = len(B.FEATURES)
        for j in range(14):
            text = B.DOCS[((idx * 14 + j) * 101 + 7) % n]
            for e in C.rare_events(rng, ctx, text, gran, 8, []):
                op = {"op": "tree", "d": 0, "c": rng.choice(["new", "new", "reuse"])}
                plan = {"gran": gran, "docs": [{"raw": text}], "trees": [0], "first": 0}
                if rng.random() < 0.5:
                    plan.update(tasks=[[op] * 3], actions=[[0, e, "raise", rng.choice(INTERRUPTS + ["memory"])]])
                else:
                    plan.update(tasks=[[op] * 2, [op] * rng.choice([1, 2])], lifo=1, actions=[[0, e, "sw", 1]])
                    if rng.random() < 0.3:
                        plan["actions"].append([1, e, "sw", 0])
                yield plan

    def nontrivial(self, plan, res):
        return bool(res["switches"]) or bool(res["fired"]) or len(res["hist"]) > 2 or any(r.get("n") for r in res["hist"])

    def signature(self, plan, res):
        return C.derive(res["itl"], [[r.get("d"), r.get("c")] for r in res["hist"]], [D.render(plan["docs"][r["d"]]) for r in res["hist"] if "d" in r], plan["tasks"] if not plan["docs"] else "")

    def judge(self, ctx, plan, res, stats):
        f = self.fatal(res)
        if f:
            return f
        for r in res["hist"]:
            if r["op"] == "retree":
                stats.add("judged", r["n"])
                for b, name, first, o in r["bad"]:
                    return {"class": "wrong-result", "detail": f"a later conversion of a <{name}> element differs from the first one", "document": B.DOCS[b], "expected": first, "got": o, "op": r["i"]}
            if r["op"] != "tree":
                continue
            stats.add("judged")
            if r.get("inj"):
                continue
            what = "conversion of a shared parsed tree differs from the first conversion in a new process"
            if "path" in r:
                text = D.render(plan["docs"][r["d"]])
                exp = ctx.ref(text, path=r["path"])["out"]
                v = exp is not None and exp != r["out"] and {"class": "wrong-result", "detail": what, "document": text, "element": r["path"], "expected": exp, "got": r["out"], "task": r["t"], "op": r["i"]}
            else:
                v = self.mismatch(ctx, plan, r, what)
            if v:
                return v
        return None


# ------------------------------------------------------------------------ C12
class C12(Prop):
    id = "C12"
    rule = ("A run forks the process while one to twenty other simulated threads are suspended inside conversions at seeded events; the child (where those threads no longer exist) and "
            "the parent then convert documents; non-trivial: at least one conversion was in progress when the fork happened.")
    measure = "distinct (source locations at which the other threads were suspended) traces"
    stub = STUB_STD
    real = REAL_PIPE + ["fork(2) of the simulated process"]
    quick_chunks = 130

    def chunk(self, rng, ctx, idx):
        gran = rng.choice(GRANS)
        if idx % 4 == 3:
            for b, e in C.strata(rng, ctx, idx // 4, gran, docs=11, per=6):
                yield {"gran": gran, "docs": [{"raw": B.DOCS[b]}], "first": 0, "actions": [[0, e, "sw", 1]],
                       "tasks": [[{"op": "convert", "d": 0, "c": "shared"}], [{"op": "fork", "ds": [0], "bs": C.near(rng, b)}]]}
            return
        docs = pool(rng, ctx, rng.choice([3, 5]), limit=1500 if gran == "opcode" else 4000)
        for _ in range(24):
            nv = rng.choice([1, 1, 2, 3]) if rng.random() < 0.9 else rng.choice([8, 12, 16, 20])
            tasks = [[{"op": "convert", "d": rng.randrange(len(docs)), "c": "shared"} for _ in range(rng.choice([1, 2]))] for _ in range(nv)]
            forker = [{"op": "fork", "ds": [rng.choice([tasks[0][0]["d"], rng.randrange(len(docs))]) for _ in range(rng.choice([1, 2, 3]))]}]
            if rng.random() < 0.25:
                forker[0]["bs"] = B.selection(rng, 1, 30)
            if rng.random() < 0.3:
                forker.append({"op": "convert", "d": rng.randrange(len(docs)), "c": "shared"})
            tasks.append(forker)
            plan = {"gran": gran, "docs": docs, "tasks": tasks, "first": 0}
            w = warm(rng, 0.1, 300)
            if w:
                plan["warm"] = w
            info = C.event_plan(rng, ctx, plan)
            acts = []
            for t in range(nv):
                e = C.pick_event(rng, info[t])
                if e:
                    acts.append([t, e, "sw", t + 1])     # ... the last one hands over to the forker
            acts.sort(key=lambda a: (a[0], a[1]))
            plan["actions"] = acts
            yield plan

    def nontrivial(self, plan, res):
        return any(r["op"] == "fork" and r.get("mid") for r in res["hist"])

    def judge(self, ctx, plan, res, stats):
        f = self.fatal(res)
        if f:
            return f
        for r in res["hist"]:
            if r["op"] == "fork":
                outs = r.get("outs", [])
                if outs and outs[-1][0] == "sweep":
                    bs = plan["tasks"][r["t"]][r["i"]]["bs"]
                    stats.add("judged", len(bs))
                    v = self.sweep_mismatch(ctx, r, bs, outs[-1][1], "battery document in a forked child differs from a new process")
                    if v:
                        v["class"] = "child-wrong-result"
                        return v
                    outs = outs[:-1]
                if outs and outs[-1][0] == "fatal":
                    return {"class": "child-" + outs[-1][1], "detail": "in the forked child: " + outs[-1][2]}
                for d, o in zip(r["ds"], outs):
                    stats.add("judged")
                    if o[0] == "fatal":
                        return {"class": "child-" + o[1], "detail": "in the forked child: " + o[2], "document": D.render(plan["docs"][d])}
                    v = self.mismatch(ctx, plan, {"d": d, "out": o, "t": r["t"], "i": r["i"], "op": "fork"}, "conversion in a forked child differs from a new process")
                    if v:
                        v["class"] = "child-wrong-result"
                        return v
            elif r["op"] == "convert":
                stats.add("judged")
                v = self.mismatch(ctx, plan, r)
                if v:
                    return v
        return None


ALL = {}
for _c in (C01, C02, C03, C04, C05, C06, C07, C08, C10, C11, C12):
    ALL[_c.id] = _c()
