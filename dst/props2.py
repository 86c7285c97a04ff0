"""Further properties: work, layout in transit, stalls, imports that are cut short."""
import gc
import json
import os
import re
import resource
import signal

from . import battery as B
from . import campaign as C
from . import docs as D
from . import props as P
from . import proc, repo, sim
from .props import INTERRUPTS, Prop, storm

_TAG = re.compile(r"<(/?)[A-Za-z_:][^<>]*?(/?)>")


def depth(text):
    """Greatest nesting of what looks like tags."""
    d = top = 0
    for m in _TAG.finditer(text):
        if m[1]:
            d -= 1
        elif not m[2]:
            d += 1
            top = max(top, d)
    return top


# ------------------------------------------------------------------------ C14
SCALE = 16
NO_RESULT = {"digest": "cpu", "hist": [], "fired": [], "itl": "cpu"}


def cost(out, plan):
    """Processor time of one document and of one SCALE times as long, unobserved, in this (new) process."""
    signal.signal(signal.SIGPROF, signal.SIG_DFL)
    signal.setitimer(signal.ITIMER_PROF, plan["cpu"])
    sim.seams.install(0)
    lib = repo.Lib()
    conv = lib.converter()
    conv.convert("<math><mi>x</mi></math>")
    used, got = [], []
    gc.disable()
    for size in (1, SCALE):
        text = D.render(dict(plan["docs"][0], n=plan["docs"][0]["n"] * size))
        best = None
        for _ in range(2 if size == 1 else 1):
            u = resource.getrusage(resource.RUSAGE_SELF)
            try:
                got.append(sim.outcome(conv.convert(text))[0])
            except BaseException as e:
                got.append(type(e).__name__)
            v = resource.getrusage(resource.RUSAGE_SELF)
            t = v.ru_utime - u.ru_utime
            best = t if best is None else min(best, t)
        used.append(best)
    return dict(NO_RESULT, digest=C.derive(got), small=used[0], large=used[1])


class C14(Prop):
    id = "C14"
    battery = False
    rule = ("A run is a history (bulk stretches of new documents, failures, repairs, interruptions, other threads' conversions in between) followed by probe documents whose events are counted, "
            "or a hostile document: tens of kilobytes of repeated markup, deep nesting, many children, many damaged attributes. Non-trivial: at least one conversion was counted.")
    measure = "distinct (history, probe documents) pairs and hostile documents"
    stub = P.STUB_STD
    assumptions = ["work is counted in executed lines of library and xml code; work inside C functions is bounded by processor time: a document of 256 kB may not take over 40 s, nor over 2 s and 48 times as long as a sixteenth of it (16 times were linear, 256 quadratic), three times in a row"]
    quick_chunks = 72
    UNITS = ["a", "a ", "a= ", "= ", '="', "'", '"', " ", "\n", "\t", "<", "<a ", "<a", "</a>", "&amp;", "mml:", "<!--", "-->", "<![CDATA[", "]]>", "<?", "?>", "/", ">", "/>", "<mi>x</mi>",
             "a=b ", "a='b' ", "<mo>+</mo>", ";", "&#", "x=", "\u00e9", "\r", "<mi a>", "<mi a=>", "</mi>", "a=<", '"a=', "<!", "[", "(", "\\", "{", "<mi>", "xmlns:mml=", "<mi a=>x</mi>", "<mi b>y</mi>"]
    FRAMES = [("<math><mi>", "</mi></math>"), ("<math><mi ", ">x</mi></math>"), ('<math><mi a="', '">x</mi></math>'), ("<math>", "</math>"), ("<math><mi b ", ">x</mi></math>"),
              ("<math><mi b>x</mi><mtext>", "</mtext></math>"), ("<math><mi b=>x</mi><!--", "--></math>"), ("", "<math><mi b>x</mi></math>"), ("<math><mi b>x</mi></math>", ""),
              ('<math><mfenced separators="', '"><mi>x</mi><mi>y</mi></mfenced></math>'), ("<math><mtable><mtr><mtd>", "</mtd></mtr></mtable></math>"), ("<math><mi b= c= d= e=>x</mi><mtext>", "</mtext></math>"),
              ("<math><mmultiscripts>", "</mmultiscripts></math>"), ("<math><mfenced>", "</mfenced></math>"), ("<math><menclose b>", "</menclose></math>")]
    WIDE = ["<mi>x</mi>", "<mo>+</mo>", "<mn>1</mn>", "<mtr><mtd><mi>x</mi></mtd></mtr>", "<mtd><mi>x</mi></mtd>", "<mrow><mi>x</mi><mo>(</mo></mrow>", "<msup><mi>x</mi><mn>2</mn></msup>",
            "<mfenced><mi>x</mi><mi>y</mi></mfenced>", '<mi class="k">x</mi>', "<mtext>a b</mtext>", "<mtable><mtr><mtd><mi>x</mi></mtd></mtr></mtable>", "x", "<!-- c -->", "<mprescripts/>", "<none/>",
            '<mtext mathvariant="bold">a</mtext>', "<mfrac><mi>a</mi><mi>b</mi></mfrac>", "<unknown>q</unknown>", "<math><mi>x</mi></math>"]

    def run(self, ctx, plan):
        if plan["mode"] != "cpu":
            return ctx.run(plan, timeout=60)
        best = None
        for _ in range(3):               # the time is excessive only if it is so each time
            try:
                r = proc.run_child(cost, plan, timeout=120)
            except proc.ChildDied as e:
                if not (os.WIFSIGNALED(e.status) and os.WTERMSIG(e.status) == signal.SIGPROF):
                    raise
                r = dict(NO_RESULT, fatal=["too-much-time", f"more than {plan['cpu']} s of processor time"])
            if "fatal" not in r and r["large"] > 2 and r["large"] > 48 * max(r["small"], 0.01):
                r = dict(NO_RESULT, fatal=["too-much-time", f"for {SCALE} times the text far more than {SCALE} times the processor time, by a factor of more than 48"])
            best = r
            if "fatal" not in r:
                break
        return best

    def hostile(self, rng, k=None):
        k = k or rng.random()
        if k < 0.45:
            pre, post = rng.choice(self.FRAMES)
            u = "".join(rng.choice(self.UNITS) for _ in range(rng.choice([1, 1, 2, 3])))
            if rng.random() < 0.4:       # the repetition in the middle of other text
                pre, post = pre + rng.choice(["a", "a", '"', "=", "<mi>y</mi>"]), rng.choice(["b", "b", " b", '"', ">", "="]) + post
            return {"rep": u, "n": rng.choice([1000, 8000, 20000]) // len(u) + 1, "pre": pre, "post": post}
        if k < 0.65:
            pre, post = rng.choice([("<math>", "</math>"), ("<math><mrow>", "</mrow></math>"), ("<math><mfenced>", "</mfenced></math>"), ('<math><mfenced separators=";,.">', "</mfenced></math>"),
                                    ("<math><mtable>", "</mtable></math>"), ("<math><mtable><mtr>", "</mtr></mtable></math>"), ("<math><mmultiscripts>", "</mmultiscripts></math>"), ("<math><mi>q</mi><msqrt>", "</msqrt></math>"),
                                    ('<math><mfenced open="{" close=""><mtable>', "</mtable></mfenced></math>"), ("<root>", "</root>"), ("<math><menclose>", "</menclose></math>"), ('<math><maction actiontype="toggle">', "</maction></math>")])
            u = "".join(rng.choice(self.WIDE) for _ in range(rng.choice([1, 1, 2])))
            return {"rep": u, "n": rng.choice([200, 600, 1200]), "pre": pre, "post": post}
        if k < 0.75:
            # two things that are both long
            rep, mid, back = rng.choice([(";", '">', "<mi>x</mi>"), (";", '">', "<mrow><mi>x</mi></mrow>"), (",", '"><mtable>', "<mtr><mtd><mi>x</mi></mtd></mtr>"), ('a#="1" ', ">", "<mi>x</mi>"), ('a#="" ', ">", "<mtr><mtd><mi>x</mi></mtd></mtr>"),
                                         ("<mi>y</mi>", "<mprescripts/>", "<mi>x</mi>"), ("<!-- c -->", "", "<mi>x</mi>"), ("x ", "", "<mi>y</mi>"), ("<mi a#='1'>x</mi>", "", "<mo>+</mo>"), ("<n#>y</n#>", "", "<mi>x</mi>"),
                                         ("<mtr><mtd><mi>y</mi></mtd></mtr>", "", "<mtr><mtd><mtable><mtr><mtd><mi>x</mi></mtd></mtr></mtable></mtd></mtr>"), ("<mi>w#</mi>", "", "<mo>v</mo>")])
            tag = rng.choice(["mfenced", "mfenced", "mrow", "mtable", "mmultiscripts", "menclose", "maction", "msqrt"])
            head = f'<{tag} separators="' if rep in ";," else f"<{tag} " if rep.startswith("a#") else f"<{tag}>"
            if rep in ";,":
                mid = rng.choice(['" open="[" close="]">', '">'])
            if rep == "," and rng.random() < 0.5:
                mid, back = mid + "<mtable>", "<mtr><mtd><mi>x</mi></mtd></mtr>"
            tail = ("</mtable>" if mid.endswith("<mtable>") else "") + f"</{tag}>"
            return {"rep": rep, "n": rng.choice([200, 400, 700]), "pre": rng.choice(["<math>", "<math>", "<math><mi b=>q</mi>"]) + head, "mid": mid, "back": back, "post": tail + "</math>", "count": 1, "flat": 1}
        # deep: one kind of element, or two in turn, inside one another
        tags = [rng.choice(D.UNARY + ["mfenced", "mtable", "unknown", "semantics", "mphantom"]) for _ in range(rng.choice([1, 1, 1, 2]))]
        front, back = "", ""
        for t in tags:
            a = {"mfenced": rng.choice(["", ' open="{" close=""', ' open="[" close="]"', ' separators=";"']), "menclose": f' notation="{rng.choice(D.NOTATION)}"',
                 "maction": f' actiontype="{rng.choice(["toggle", "tooltip", "statusline", "x"])}"', "mfrac": rng.choice(["", ' bevelled="true"'])}.get(t, "")
            n = D.ARITY.get(t, 3 if t == "mmultiscripts" else 1) - 1
            if t == "mtable":
                front, back = front + "<mtable><mtr><mtd>", "</mtd></mtr></mtable>" + back
            else:
                left = rng.choice([0, n])
                front, back = front + f"<{t}{a}>" + "<mn>2</mn>" * left, "<mn>2</mn>" * (n - left) + f"</{t}>" + back
            if rng.random() < 0.3:
                front += rng.choice(["<mrow><mo>(</mo>", "<mrow>"])
                back = "</mrow>" + back
        return {"rep": front, "n": rng.choice([6, 10, 14, 18, 25, 40, 60]) // len(tags), "mid": rng.choice(["<mi>x</mi>", "<mi>x</mi>", "<mtable><mtr><mtd><mi>x</mi></mtd></mtr></mtable>", "<mo>+</mo><mtext>a b</mtext>"]),
                "back": back, "pre": rng.choice(["<math>", "<math>", "<math><mi b=>y</mi>"]), "post": "</math>"}

    def chunk(self, rng, ctx, idx):
        if idx % 3 == 0:
            for _ in range(20):
                if rng.random() < 0.5:       # large, unobserved, on a clock that is hard to exceed
                    d = self.hostile(rng, rng.choice([0.1, 0.1, 0.5, 0.7]))
                    d["n"] = 16000 // (len(d["rep"]) + len(d.get("back", ""))) + 1
                    yield {"gran": "line", "docs": [d], "tasks": [[{"op": "convert", "d": 0, "c": "new"}]], "actions": [], "mode": "cpu", "trace": False, "cpu": 40}
                    continue
                docs = []
                for _ in range(rng.choice([1, 2, 4])):      # each also at a fraction of its size
                    d = self.hostile(rng)
                    docs += [dict(d, n=max(1, d["n"] // (2 if "back" in d and "flat" not in d else 4))), d]
                ops = [{"op": "convert", "d": d, "c": rng.choice(["shared", "new"])} for d in range(len(docs))]
                yield {"gran": "line", "docs": docs, "tasks": [ops], "actions": [], "mode": "hostile", "budget": 30_000_000}
            return
        docs = P.pool(rng, ctx, rng.choice([3, 5]))
        base = list(docs)
        for _ in range(6):
            probes = [{"raw": B.DOCS[b]} for b in rng.sample(range(len(B.FEATURES)), rng.choice([6, 12]))]
            probes += [{"raw": t} for t in rng.sample(D.BROKEN, 2)] + [{"raw": f'<math><mi {rng.choice("abcd")}=>x{rng.randrange(100)}</mi></math>'}]
            fine = rng.random() < 0.35       # count instructions: they show loops within a line, too
            if fine:
                probes = rng.sample(probes, min(len(probes), 5)) + probes[-1:]
            plan = {"gran": "opcode" if fine else "line", "docs": base + probes, "actions": [], "mode": "history", "gc": False, "first": 0}
            ops, mine = [], list(range(len(base), len(base) + len(probes)))
            hist = []
            for _ in range(rng.choice([1, 2, 3])):
                k = rng.random()
                if k < 0.6:
                    kind = rng.choice(["mix", "tok", "fail", "repair", "deep", "attr", "wide", "names"])
                    hist.append({"op": "bulk", "seed": rng.randrange(1 << 30), "k": kind, "n": rng.choice([3, 12]) if kind in ("wide", "names") else rng.choice([200, 700, 1500, 4000]), "pad": rng.choice([0, 1, 2]), "c": rng.choice(["shared", "new", "adapter"])})
                elif k < 0.8:
                    hist.append({"op": "sweep", "bs": B.selection(rng, 2, 60), "c": "shared"})
                else:
                    hist += [{"op": "convert", "d": rng.randrange(len(base)), "c": "shared", "h": 1} for _ in range(rng.choice([10, 40]))]
            if rng.random() < 0.3:           # the same few documents again and again
                d = rng.choice(mine)
                hist += [{"op": "convert", "d": d, "c": rng.choice(["shared", "own"])} for _ in range(rng.choice([10, 60]))]
            ops = hist + [{"op": "convert", "d": d, "c": rng.choice(["shared", "shared", "new"])} for d in mine]
            if rng.random() < 0.3:
                ops += [{"op": "clock", "s": rng.choice([61.0, 90000.0, -3600.0])}] + [{"op": "convert", "d": d, "c": "shared"} for d in mine]
            tasks = [ops]
            how = rng.random()
            if how < 0.35:
                for _ in range(rng.choice([3, 10, 30])):       # abandoned conversions leave no debts
                    d = rng.randrange(len(plan["docs"]))
                    ops.insert(0, {"op": "convert", "d": d, "c": "shared"})
                plan["tasks"] = tasks
                info = C.event_plan(rng, ctx, plan)
                off = 0
                for o, r in info[0][1][:30]:
                    e = C.pick_event(rng, (r["n"], [(off, r)]))
                    if e and rng.random() < 0.8:
                        plan["actions"].append([0, e, "raise", rng.choice(INTERRUPTS + ["memory"])])
                        off = e
                    else:
                        off += r["n"]
                    if len(plan["actions"]) >= 25:
                        break
                plan["actions"].sort(key=lambda a: a[1])
            elif how < 0.6:
                tasks += [[storm(rng)] for _ in range(3)]
                plan["tasks"], plan["lifo"] = tasks, 1
                n = sum(1 for o in ops if o["op"] == "convert")
                total = C.event_plan(rng, ctx, plan)[0][0]
                for i in range(3):
                    plan["actions"].append([0, 1 + rng.randrange(max(1, total)), "sw", i + 1])
                plan["actions"].sort(key=lambda a: a[1])
            plan["tasks"] = tasks
            yield plan

    def nontrivial(self, plan, res):
        return plan["mode"] == "cpu" or any(r.get("n") for r in res["hist"])

    def signature(self, plan, res):
        return C.derive(res["itl"], [[op.get("seed"), op.get("bs")] for ops in plan["tasks"] for op in ops], [D.render(plan["docs"][r["d"]])[:2000] for r in res["hist"] if "d" in r], [d.get("n") for d in plan["docs"]])

    def judge(self, ctx, plan, res, stats):
        f = self.fatal(res)
        if f:
            return dict(f, documents=[D.render(plan["docs"][op["d"]])[:300] for op in plan["tasks"][0] if "d" in op][:3]) if plan["mode"] != "history" else f
        if plan["mode"] == "cpu":
            stats.add("judged")
            stats.add("large hostile documents within the processor time limit")
            return None
        total = fresh = 0
        sizes = {}
        slack = 12000 if plan["gran"] == "opcode" else 3000
        for r in res["hist"]:
            if r["op"] != "convert" or r.get("inj"):
                continue
            text = D.render(plan["docs"][r["d"]])
            stats.add("judged")
            n = r["n"]
            if plan["mode"] == "hostile":
                d = depth(text)
                most = 5000 + 250 * len(text) + 3 * len(text) * min(d, 60)
                pr = stats.setdefault("probes", {})
                key = f"hostile documents that used at most {10 * (10 * n // most + 1)}% of the bound"
                pr[key] = pr.get(key, 0) + 1
                if n > most:
                    return {"class": "too-much-work", "detail": f"{n} steps for a document of {len(text)} characters nested {d} deep (allowed: {most})", "document": text[:1500], "op": r["i"]}
                doc = plan["docs"][r["d"]]
                key = json.dumps([doc.get(x) for x in ("rep", "pre", "mid", "back", "post")])
                if key not in sizes:
                    sizes[key] = (doc["n"], n)
                else:
                    # two sizes of the same thing: linear work, or quadratic for nested elements, and half as much again
                    k = doc["n"] / sizes[key][0]
                    most = 10000 + n0 * 1.5 * (k * k if "back" in doc and "flat" not in doc else k) if (n0 := sizes[key][1]) else 10000
                    stats.add("pairs of sizes compared")
                    if k >= 1 and n > most:
                        return {"class": "work-grows-too-fast", "detail": f"{n} steps at {doc['n']} repetitions, {n0} at {sizes[key][0]} (allowed: {int(most)})", "document": text[:1500], "op": r["i"]}
                continue
            ref = ctx.ref(text, plan["gran"])
            if ref["out"] is None:
                continue
            total += n
            fresh += ref["n"]
            stats.add("counted in " + ("instructions" if plan["gran"] == "opcode" else "lines"))
            if n > 2 * ref["n"] + slack:
                return {"class": "work-grows-with-history", "detail": f"{n} steps after this history, {ref['n']} in a new process", "document": text[:1500], "op": r["i"]}
        if total > 1.3 * fresh + 2 * slack:
            return {"class": "work-grows-with-history", "detail": f"{total} steps for documents that take {fresh} in new processes"}
        return None


# ------------------------------------------------------------------------ C15
class C15(Prop):
    id = "C15"
    battery = False
    rule = ("A run is a session: documents pass a channel that breaks lines elsewhere (other line endings, breaks for blanks in tags, attribute values and texts, further white space between attributes, elements and at the edges of tokens) "
            "and are converted one after another, the same document under several layouts; oracle: the LaTeX of the document as it was sent, in a new process. Non-trivial: the channel changed at least one document.")
    measure = "distinct documents delivered"
    stub = P.STUB_STD + ["the channel between the producer of the document and the converter"]
    assumptions = ["only documents that convert without an error are sent", "no white space is added beside comments, CDATA sections and processing instructions"]
    quick_chunks = 64

    def chunk(self, rng, ctx, idx):
        for _ in range(10):
            prof = D.gen_profile(rng, bad_arity=0.0)
            prof["noise"] = rng.choice([0.1, 0.5])
            docs = []
            for _ in range(12):
                if rng.random() < 0.4:
                    text = B.DOCS[rng.randrange(len(B.FEATURES))]
                else:
                    d = D.gen_doc(rng, prof)
                    if rng.random() < 0.3:
                        D.style_attributes(rng, d)
                    text = D.render(d)
                if len(text) > 3000 or not P.wellformed(text):
                    continue
                out = ctx.expect(text)
                if out is None or out[0] != "ok":
                    continue
                for _ in range(rng.choice([1, 1, 3])):
                    lay = D.relayout(rng, text)
                    if lay:
                        docs.append({"base": text, "lay": lay})
            if docs:
                yield {"gran": "line", "docs": docs, "actions": [], "trace": False, "tasks": [[{"op": "convert", "d": i, "c": rng.choice(["shared", "new", "adapter"])} for i in range(len(docs))]]}

    def nontrivial(self, plan, res):
        return True

    def signature(self, plan, res):
        return C.derive([D.render(plan["docs"][r["d"]]) for r in res["hist"]])

    def judge(self, ctx, plan, res, stats):
        f = self.fatal(res)
        if f:
            return f
        fl = stats.setdefault("faults", {})
        for r in res["hist"]:
            doc = plan["docs"][r["d"]]
            fl["white space changed"] = fl.get("white space changed", 0) + len(doc["lay"])
            stats.add("judged")
            exp = ctx.expect(doc["base"])
            if exp is None or exp[0] != "ok":
                continue
            if r["out"] != exp:
                return {"class": "layout-changed-result", "detail": "the document as delivered, with other line breaks, does not give the LaTeX of the document as sent", "document": D.render(doc), "sent": doc["base"], "expected": exp, "got": r["out"], "op": r["i"]}
        return None

    def sample(self, plan, res):
        return {"delivered": [D.render(plan["docs"][r["d"]])[:300] for r in res["hist"][:2]], "outcomes": [r["out"] for r in res["hist"][:2]]}

    def shrinks(self, plan):
        yield from C.generic_shrinks(plan)
        for op in plan["tasks"][0][:3]:
            d = op["d"]
            if "lay" in plan["docs"][d]:
                yield from C.shrink_inner(plan, plan["docs"][d]["lay"], lambda p, x: p["docs"][d].__setitem__("lay", x))


# ------------------------------------------------------------------------ C16
class C16(Prop):
    id = "C16"
    rule = ("A run stalls one to three (in part of the runs up to 33) conversions at seeded events (a thread that is descheduled, swapped out or stopped in a debugger), cold or warm, while other threads convert documents, batteries and storms to the end, "
            "with new and shared converters; then the stalled ones go on, after a clock jump in part of the runs. Non-trivial: a conversion was stalled in its middle.")
    measure = "distinct sequences of stalls and preemptions with their source locations"
    assumptions = ["stalls only at events of library code and of the standard library's xml package, and not inside module imports"]
    quick_chunks = 72

    def chunk(self, rng, ctx, idx):
        gran = rng.choice(P.GRANS)
        if idx % 3 == 2:
            for b, e in C.strata(rng, ctx, idx // 3, gran, docs=14, per=9):
                ops = [{"op": "convert", "d": 0, "c": rng.choice(["shared", "new", "own"])}]
                if rng.random() < 0.3:
                    ops.insert(0, {"op": "convert", "d": 0, "c": "shared"})
                    e += ctx.ref(B.DOCS[b], gran)["n"]
                others = [[{"op": "convert", "d": 0, "c": "shared"}, {"op": "sweep", "bs": C.near(rng, b), "c": rng.choice(["shared", "new"])}]]
                yield {"gran": gran, "docs": [{"raw": B.DOCS[b]}], "first": 0, "gc": rng.random() < 0.1, "budget": 400_000, "tasks": [ops] + others, "actions": [[0, e, "stall", rng.choice([0, 0, 3600.0])]]}
            return
        docs = P.pool(rng, ctx, rng.choice([3, 6, 9]), limit=1500 if gran == "opcode" else 4000)
        for _ in range(26):
            ns = rng.choice([1, 1, 1, 2, 3]) if rng.random() < 0.93 else rng.choice([5, 9, 12, 17, 20, 33])
            nt = ns + rng.choice([1, 1, 2, 3])
            one = rng.randrange(len(docs))
            tasks = []
            for t in range(nt):
                if t >= ns and rng.random() < 0.35:
                    tasks.append([storm(rng)])
                    continue
                tasks.append([{"op": "convert", "d": one if rng.random() < 0.4 else rng.randrange(len(docs)), "c": rng.choice(["shared", "shared", "own", "new", "class"])} for _ in range(rng.choice([1, 2, 3]))])
            plan = {"gran": gran, "docs": docs, "tasks": tasks, "first": 0, "gc": rng.random() < 0.3, "budget": 400_000}
            w = P.warm(rng, 0.15, 600)
            if w:
                plan["warm"] = w
            info = C.event_plan(rng, ctx, plan)
            acts = []
            if rng.random() < 0.4:
                _, acts = C.preemptions(rng, ctx, plan, info)
            for t in range(ns):
                for _ in range(rng.choice([1, 1, 2])):
                    e = C.pick_event(rng, info[t])
                    if e:
                        acts.append([t, e, "stall", rng.choice([0, 0, 0, 3600.0, -60.0])])
            plan["actions"] = sorted(acts, key=lambda a: (a[0], a[1]))
            yield plan

    def nontrivial(self, plan, res):
        return bool(res["fired"])

    judge = P.C01.judge


# ------------------------------------------------------------------------ C17
class C17(Prop):
    id = "C17"
    rule = ("A run starts a new process, imports the library's modules in a seeded order, and cuts the import short one to four times: an exception (interruption, out of memory) at a seeded line of a module body, or a module whose "
            "source cannot be read (I/O error, no permission, too many open files, damaged file); then imports again without clearing anything and converts a large part of the battery. Non-trivial: an import was cut short.")
    measure = "distinct (order of imports, failure, source location or module) traces"
    stub = P.STUB_STD + ["reading of the library's source files (may fail as planned)"]
    assumptions = ["a module file is read whole or not at all; half-read files that still compile are not simulated", "the repeated import is that of the package or of mathml_to_latex.converter, the documented entry point"]
    quick_chunks = 80
    IO = ["eio", "eacces", "enoent", "emfile", "memory", "torn", "eof", "import", "keyboard", "recursion"]

    def ref(self, ctx, gran, first):
        key = ("import", gran, tuple(first))
        r = ctx.cache.get(key)
        if r is None:
            ctx.ref_runs += 1
            r = ctx.cache[key] = proc.run_child(sim.dry_import, gran, first, timeout=60)
            by = {}
            from array import array
            locs = array("I")
            locs.frombytes(r["locs"])
            for i, l in enumerate(locs):
                by.setdefault(r["file"][l], {}).setdefault(l, []).append(i + 1)
            r["by"] = [list(x.values()) for x in by.values()]
        return r

    def chunk(self, rng, ctx, idx):
        gran = rng.choice(["line", "line", "line", "opcode"]) if idx % 3 == 0 else "line"
        mods = repo.modules()
        for k in range(9):
            first = rng.sample(mods, rng.choice([0, 0, 1, 1, 2, 4, len(mods)])) if idx % 3 == 0 else []
            r = self.ref(ctx, gran, first)
            # consecutive chunks take turns through all lines of the module bodies; a module whose body is data counts as forty
            lines = r.get("lines")
            if lines is None:
                lines = r["lines"] = []
                for x in r["by"]:
                    lines += x if len(x) < 1000 else [x[i * len(x) // 40] for i in range(40)]
            for j in range(3):
                ops, acts = [], []
                off = 0
                at = None if idx % 3 == 0 or not lines else lines[(((idx - idx // 3 - 1) * 9 + k) * 3 + j) % len(lines)]
                for _ in range(rng.choice([1, 1, 2, 4])):
                    op = {"op": "import", "first": first if not ops else rng.choice([[], [repo.PKG], [repo.PKG + ".converter"]])}
                    if at is None and rng.random() < 0.4:
                        op["io"] = {rng.choice(mods): [rng.choice(self.IO) for _ in range(rng.choice([1, 1, 2]))]}
                    elif r["by"]:
                        # events are counted on through the imports; later ones only have what is left to do
                        n = rng.randrange(1, max(2, r["n"] // rng.choice([1, 4, 20, 100])))
                        if not ops:
                            occ = at if at is not None else rng.choice(rng.choice(r["by"]))
                            n = rng.choice(occ) if rng.random() < 0.5 else occ[len(occ) // 2]
                        acts.append([0, off + n, "raise", rng.choice(INTERRUPTS + ["memory", "recursion"])])
                        off += n
                    ops.append(op)
                ops += [{"op": "import", "first": rng.choice([[], [repo.PKG], [repo.PKG + ".converter"]])}, {"op": "sweep", "bs": B.selection(rng, 12 if at is not None else 4, 60), "c": rng.choice(["shared", "new"])}]
                yield {"gran": gran, "docs": [], "tasks": [ops], "actions": acts, "cold": True, "gc": rng.random() < 0.2, "first": 0}

    def nontrivial(self, plan, res):
        return bool(res["fired"])

    def signature(self, plan, res):
        return C.derive(res["itl"], [[op.get("first"), op.get("io")] for op in plan["tasks"][0]])

    def judge(self, ctx, plan, res, stats):
        f = self.fatal(res)
        if f:
            return f
        for r in res["hist"]:
            stats.add("judged")
            if r["op"] == "import":
                base = {"modules": r["first"], "got": r["out"], "op": r["i"]}
                if r.get("inj"):
                    stats.add("imports cut short")
                    if r["kind"] in ("keyboard", "exit", "custom", "cancelled") and not r.get("same"):
                        return dict(base, **{"class": "interruption-lost", "detail": f"{r['kind']} delivered at {r['at']} did not reach the importer"})
                    continue
                if r.get("io"):
                    stats.add("imports that could not read a module")
                    continue
                if r["out"][0] != "ok":
                    return dict(base, **{"class": "import-broken", "detail": "the import fails although nothing is wrong any more"})
            elif r["op"] == "sweep":
                stats.add("judged", len(r["bs"]) - 1)
                v = self.sweep_mismatch(ctx, r, what="battery document after an import that was cut short differs from a new process")
                if v:
                    return v
        return None

    def sample(self, plan, res):
        return {"imports": [[op.get("first", [])[:4], op.get("io")] for op in plan["tasks"][0] if op["op"] == "import"], "fired": res["fired"][:4], "outcomes": [r["out"] for r in res["hist"] if r["op"] == "import"]}

    def shrinks(self, plan):
        yield from C.generic_shrinks(plan)
        for oi, op in enumerate(plan["tasks"][0]):
            for m in list(op.get("first", [])):
                p = C.copy(plan)
                p["tasks"][0][oi]["first"].remove(m)
                yield p


for _c in (C14, C15, C16, C17):
    P.ALL[_c.id] = _c()
