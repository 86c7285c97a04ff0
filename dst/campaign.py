"""Seeded search over many simulated runs, shrinking, replay files, evidence."""
import gc
import hashlib
import json
import os
import random
import sys
import time
from array import array

from . import battery as B
from . import docs as D
from . import proc, repo, sim

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.environ.get("DST_REPLAYS", os.path.join(VERIF, "replays"))
EVIDENCE = os.environ.get("DST_EVIDENCE", os.path.join(VERIF, "evidence"))

_now = time.monotonic


_scratch = None


def scratch_root():
    """Scratch directory of this check; created before workers are forked, removed by the process that made it."""
    global _scratch
    if _scratch is None:
        import atexit
        import shutil
        import tempfile
        _scratch = tempfile.mkdtemp(prefix="dst-")
        me, d = os.getpid(), _scratch
        atexit.register(lambda: os.getpid() == me and shutil.rmtree(d, True))
    return _scratch


def derive(*parts):
    h = hashlib.blake2b("|".join(str(p) for p in parts).encode(), digest_size=8)
    return int.from_bytes(h.digest(), "big")


_battery = {}         # per worker process


class Ctx:
    """What a property's generator and oracle may use: reference runs and planned runs."""

    def __init__(self, tier="quick"):
        self.tier = tier
        self.cache = {}
        self.ref_runs = 0
        self.died = 0

    def ref(self, text, gran="line", path=None):
        """Dry run of one document alone in a new process (cached)."""
        key = (text, gran, str(path))
        r = self.cache.get(key)
        if r is None:
            self.ref_runs += 1
            try:
                r = proc.run_child(sim.dry, text, gran, 1_500_000, path, timeout=30)
            except proc.ChildTimeout:
                r = {"hist": [], "fatal": ["hang", "no result within 30 s"]}
            if "hist" in r:              # ended by a fatal event
                r = {"out": None, "fatal": r["fatal"], "n": 0, "locs": b"", "in_repo": b"", "keys": []}
            if len(self.cache) > 4000:
                self.cache.clear()
            self.cache[key] = r
        return r

    def expect(self, text):
        return self.ref(text)["out"]

    def battery(self, b):
        """Outcome (digest) of a battery document alone in a new process."""
        if b not in _battery:
            _battery[b] = B.digest(self.expect(B.DOCS[b]))
        return _battery[b]

    def run(self, plan, keep_log=False, timeout=40):
        return proc.run_child(sim.execute, plan, keep_log, timeout=timeout)


def fill_battery(workers):
    """Outcomes of all battery documents, each alone in a new process, before the workers are forked."""
    step = 12

    def part(i):
        ctx = Ctx()
        return [(b, B.digest(ctx.expect(B.DOCS[b]))) for b in range(i * step, min(len(B.DOCS), (i + 1) * step))]
    with proc.Workers(workers, part, (len(B.DOCS) + step - 1) // step) as pool:
        while True:
            st, res = pool.next(120)
            if st in ("end", "timeout"):
                return
            if st != "error":
                _battery.update(res)


# ------------------------------------------------------------------ schedules
def event_plan(rng, ctx, plan):
    """Per task: total events and [(offset, ref)] of its conversions, from the dry runs."""
    gran = plan.get("gran", "line")
    info = []
    for ops in plan["tasks"]:
        off, segs = 0, []
        for op in ops:
            if op["op"] in ("convert", "tree"):
                r = ctx.ref(D.render(plan["docs"][op["d"]]), gran, [] if op["op"] == "tree" else None)
                segs.append((off, r))
                off += r["n"]
        info.append((off, segs))
    return info


def pick_event(rng, info, in_repo=None):
    """A task-local event number, stratified by code location rather than by frequency."""
    total, segs = info
    segs = [s for s in segs if s[1]["n"]]
    if not segs:
        return None
    off, r = rng.choice(segs)
    locs = array("I")
    locs.frombytes(r["locs"])
    flags = r["in_repo"]
    if rng.random() < 0.15:
        return off + 1 + rng.randrange(len(locs))
    want = 1 if (in_repo if in_repo is not None else rng.random() < 0.8) else 0
    cand = r.get(("by", want))
    if cand is None:
        cand = {}
        for i, l in enumerate(locs):
            if flags[l] == want:
                cand.setdefault(l, []).append(i)
        cand = r[("by", want)] = list(cand.values())
    if not cand:
        return off + 1 + rng.randrange(len(locs))
    occ = rng.choice(cand)
    return off + 1 + (occ[0] if rng.random() < 0.4 else rng.choice(occ))


def strata(rng, ctx, idx, gran, docs=5, per=14):
    """(battery document, its event): locations that few documents reach come first.
    Consecutive chunks take turns through the battery, so a campaign visits all of it."""
    n = len(B.FEATURES)
    bs = [((idx * docs + j) * 101 + 7) % n for j in range(docs)]
    by, common = {}, {}
    for b in set(bs):
        r = ctx.ref(B.DOCS[b], gran)
        locs = array("I")
        locs.frombytes(r["locs"])
        where = by[b] = {}
        for i, l in enumerate(locs):
            where.setdefault(r["keys"][l] if r["in_repo"][l] else None, []).append(i)
        for key in where:
            common[key] = common.get(key, 0) + 1
    for b in bs:
        where = by[b]
        if not where:
            continue
        keys = list(where)
        for _ in range(per):
            key = rng.choices(keys, [0.5 if k is None else 1.0 / common[k] ** 2 for k in keys])[0]
            occ = where[key]
            yield b, 1 + (occ[0] if rng.random() < 0.4 else rng.choice(occ))


def rare_events(rng, ctx, text, gran, k, path=None):
    """Events of the document, at locations of the library it reaches seldom rather than often."""
    r = ctx.ref(text, gran, path)
    where = r.get("where")
    if where is None:
        locs = array("I")
        locs.frombytes(r["locs"])
        where = {}
        for i, l in enumerate(locs):
            if r["in_repo"][l]:
                where.setdefault(l, []).append(i)
        where = r["where"] = list(where.values())
    if not where:
        return []
    return [1 + (occ[0] if rng.random() < 0.4 else rng.choice(occ)) for occ in rng.choices(where, [1.0 / len(o) for o in where], k=k)]


def near(rng, b, k=16, others=16):
    """Battery documents that use the same constructs as document b, and some others."""
    n = len(B.FEATURES)
    out = {(b + d) % n for d in range(-k // 2, k // 2 + 1)} | set(rng.sample(range(n), others))
    if rng.random() < 0.15:
        out.add(rng.choice(B.SYMBOLS))
    out = sorted(out)
    rng.shuffle(out)
    return out


def preemptions(rng, ctx, plan, info=None):
    """Swarm of schedule styles; all decisions become explicit entries of the plan."""
    info = info or event_plan(rng, ctx, plan)
    nt = len(plan["tasks"])
    acts = []
    style = rng.choice(["strat1", "strat1", "strat2", "strat2", "strat4", "quantum", "quantum", "burst", "uniform"])
    if style.startswith("strat"):
        for _ in range(int(style[5:])):
            t = rng.randrange(nt)
            n = pick_event(rng, info[t])
            if n:
                acts.append([t, n, "sw", rng.randrange(nt)])
    elif style == "quantum":
        q = rng.choice([2, 5, 20, 80, 300])
        for t in range(nt):
            n = 0
            for _ in range(300):
                n += 1 + int(rng.expovariate(1.0 / q))
                if n > info[t][0]:
                    break
                acts.append([t, n, "sw", rng.randrange(nt)])
    elif style == "burst":
        # one stretch of fine-grained alternation somewhere in the run
        for t in range(nt):
            if info[t][0] > 2:
                s = rng.randrange(1, info[t][0])
                for d in range(rng.choice([5, 20, 60])):
                    acts.append([t, s + d * rng.choice([1, 1, 2]), "sw", rng.randrange(nt)])
    else:
        for _ in range(rng.choice([1, 2, 3, 6])):
            t = rng.randrange(nt)
            if info[t][0]:
                acts.append([t, rng.randrange(1, info[t][0] + 1), "sw", rng.randrange(nt)])
    acts.sort(key=lambda a: (a[0], a[1]))
    return style, acts


# -------------------------------------------------------------------- chunks
class Stats(dict):
    def add(self, key, n=1):
        self[key] = self.get(key, 0) + n

    def merge(self, other):
        for k, v in other.items():
            if isinstance(v, dict):
                d = self.setdefault(k, {})
                for kk, vv in v.items():
                    d[kk] = d.get(kk, 0) + vv
            else:
                self[k] = self.get(k, 0) + v


def note_result(stats, res):
    stats.add("runs")
    stats.add("steps", res.get("steps", 0))
    stats.add("sim_s", res.get("sim_s", 0.0))
    f = stats.setdefault("faults", {})
    for k, v in res.get("faults", {}).items():
        f[k] = f.get(k, 0) + v
    p = stats.setdefault("probes", {})
    for k, v in res.get("probes", {}).items():
        p[k] = p.get(k, 0) + v


def evaluate(prop, ctx, plan, stats, retry=False):
    """(result, violation or None) of one run.  A run takes milliseconds: one that gives no result
    within many seconds of wall time, twice, is stuck inside code that reports no events."""
    for attempt in (1, 2):
        try:
            res = prop.run(ctx, plan)
            break
        except proc.ChildTimeout as e:
            if attempt == 2 or not retry:
                return ({"digest": "hang", "hist": [], "fired": [], "itl": "hang"}, {"class": "hang", "detail": str(e)})
    return res, prop.judge(ctx, plan, res, stats)


def run_chunk(args):
    """All runs of one chunk.  Pure function of (property, seed, tier, chunk index, code)."""
    prop, seed, tier, idx, want_digests = args
    rng = random.Random(derive(seed, prop.id, tier, idx))
    ctx = Ctx(tier)
    stats = Stats()
    sigs, samples, viols, digests = set(), [], [], []
    for plan in prop.chunk(rng, ctx, idx):
        plan["prop"] = prop.id
        try:
            res, v = evaluate(prop, ctx, plan, stats, retry=not prop.may_die(plan))
        except proc.ChildDied:
            if prop.may_die(plan):
                stats.add("interpreter ended by injected fault (discarded)")
                continue
            raise
        note_result(stats, res)
        if want_digests:
            digests.append(res.get("digest", ""))
        if v and v["class"] == "hang" and prop.may_die(plan):
            stats.add("interpreter stuck by injected fault (discarded)")
            continue
        if v and v["class"] == "hang":
            viols.append({"plan": plan, "v": v, "chunk": idx})
            break
        if prop.nontrivial(plan, res):
            sigs.add(prop.signature(plan, res))
        if v:
            viols.append({"plan": plan, "v": v, "chunk": idx})
            if len(viols) >= 3:
                break
        elif len(samples) < 1:
            samples.append(prop.sample(plan, res))
    stats.add("reference runs", ctx.ref_runs)
    return idx, stats, sigs, samples, viols, digests


# -------------------------------------------------------------------- shrink
def shrink(prop, ctx, plan, cls, budget_s=25.0, max_tests=600):
    if cls == "hang":
        return plan, 0
    end = _now() + budget_s
    tests = [0]

    def bad(p):
        if _now() > end or tests[0] >= max_tests:
            return False
        tests[0] += 1
        try:
            res, v = evaluate(prop, ctx, p, Stats())
        except (proc.HarnessError, AssertionError, IndexError, KeyError):
            return False
        return bool(v) and v["class"] == cls

    changed = True
    while changed and _now() < end and tests[0] < max_tests:
        changed = False
        for cand in prop.shrinks(plan):
            if _now() > end or tests[0] >= max_tests:
                break
            if cand is None:
                continue
            if bad(cand):
                plan = cand
                changed = True
                break
    return plan, tests[0]


def copy(x):
    return json.loads(json.dumps(x))


def shrink_list(plan, key, min_len=0):
    xs = plan.get(key) or []
    n = len(xs)
    size = n // 2 or 1
    while size >= 1 and n > min_len:
        for i in range(0, n, size):
            if n - len(xs[i:i + size]) >= min_len:
                p = copy(plan)
                p[key] = xs[:i] + xs[i + size:]
                yield p
        size //= 2


def shrink_doc(doc):
    if "raw" in doc:
        t = doc["raw"]
        step = max(1, len(t) // 4)
        while step >= 1 and len(t) > 0:
            for i in range(0, len(t), step):
                yield {"raw": t[:i] + t[i + step:]}
            if step == 1 or len(t) > 60 and step <= 4:
                break
            step //= 2
        return
    if "base" in doc:
        return
    if "rep" in doc:
        for n in (1, doc["n"] // 4, doc["n"] // 2, doc["n"] * 3 // 4):
            if 0 < n < doc["n"]:
                yield dict(doc, n=n)
        return
    for key in ("indent", "prefix", "wrap", "more", "outer", "decl", "tail"):
        if doc.get(key):
            d = copy(doc)
            del d[key]
            yield d
    ns = list(D.walk(doc["t"]))
    for idx in range(len(ns)):
        node = ns[idx]
        kids = node[2] if isinstance(node[2], list) else []
        for j, c in enumerate(kids):
            if idx > 0:      # replace the node by one of its children
                d = copy(doc)
                m = list(D.walk(d["t"]))[idx]
                cc = m[2][j]
                m[0], m[1], m[2] = cc[0], cc[1], cc[2]
                yield d
            d = copy(doc)
            m = list(D.walk(d["t"]))[idx]
            del m[2][j]
            yield d
        for j in range(len(node[1])):
            d = copy(doc)
            m = list(D.walk(d["t"]))[idx]
            del m[1][j]
            yield d
        if isinstance(node[2], str) and len(node[2]) > 1 and "&" not in node[2]:
            d = copy(doc)
            m = list(D.walk(d["t"]))[idx]
            m[2] = "x"
            yield d


def shrink_inner(plan, xs, put):
    n = len(xs)
    size = n // 2
    while size >= 1 and n > 1:
        for i in range(0, n, size):
            if len(xs[i:i + size]) < n:
                p = copy(plan)
                put(p, xs[:i] + xs[i + size:])
                yield p
        size //= 2


def generic_shrinks(plan):
    """Candidates, most aggressive first."""
    yield from shrink_list(plan, "actions")
    if plan.get("warm"):
        p = copy(plan)
        del p["warm"]
        yield p
        for n in (1, 10, 100, plan["warm"]["n"] // 2):
            if n < plan["warm"]["n"]:
                p = copy(plan)
                p["warm"]["n"] = n
                yield p
    for ti in range(len(plan["tasks"])):
        if len(plan["tasks"]) > 1:
            p = copy(plan)
            del p["tasks"][ti]
            out = []
            for a in p["actions"]:
                if a[0] == ti:
                    continue
                a[0] -= a[0] > ti
                if a[2] == "sw" and a[3] is not None:
                    a[3] = max(0, a[3] - (a[3] > ti))
                out.append(a)
            p["actions"] = out
            yield p
    for ti, ops in enumerate(plan["tasks"]):
        size = max(1, len(ops) // 2)
        while size >= 1:
            for i in range(0, len(ops), size):
                if len(ops) > len(ops[i:i + size]):
                    p = copy(plan)
                    p["tasks"][ti] = ops[:i] + ops[i + size:]
                    yield p
            size //= 2
        for oi, op in enumerate(ops):
            if op["op"] == "bulk" and op["n"] > 1:
                for n in (1, 10, op["n"] // 2):
                    if n < op["n"]:
                        p = copy(plan)
                        p["tasks"][ti][oi]["n"] = n
                        p["tasks"][ti][oi]["sample"] = [j for j in op.get("sample", []) if j < n]
                        yield p
            if op.get("c") in ("own", "adapter", "shared"):
                p = copy(plan)
                p["tasks"][ti][oi]["c"] = "new"
                yield p
            for key in ("ds", "bs"):
                yield from shrink_inner(plan, op.get(key, []), lambda p, x, key=key, ti=ti, oi=oi: p["tasks"][ti][oi].__setitem__(key, x))
    used = set()
    for ops in plan["tasks"]:
        for op in ops:
            used.update([op["d"]] if "d" in op else [])
            used.update(op.get("ds", []))
    used.update(a[3] for a in plan.get("actions", []) if a[2] == "nest" and not isinstance(a[3], dict))
    for di in sorted(used):
        for d in shrink_doc(plan["docs"][di]):
            p = copy(plan)
            p["docs"][di] = d
            yield p
            # events move when a document shrinks: also try the fault a little earlier
            for a in range(len(plan.get("actions", []))):
                n = plan["actions"][a][1]
                for nn in (n * 3 // 4, n // 2):
                    if nn >= 1:
                        q = copy(p)
                        q["actions"][a][1] = nn
                        yield q
    for a in range(len(plan.get("actions", []))):
        if isinstance(plan["actions"][a][-1], dict):
            yield from shrink_inner(plan, plan["actions"][a][3]["bs"], lambda p, x, a=a: p["actions"][a][3].__setitem__("bs", x))
        n = plan["actions"][a][1]
        for nn in (1, n // 2, n - 1):
            if 1 <= nn < n:
                p = copy(plan)
                p["actions"][a][1] = nn
                yield p


# ----------------------------------------------------------------- known findings
def load_known():
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line and not line.startswith("#"):
                    out.append(json.loads(line))
    return out


# ------------------------------------------------------------------------ main
def campaign(prop, seed, tier, workers=None, chunks=None, digests=False):
    workers = workers or int(os.environ.get("DST_WORKERS", "0")) or os.cpu_count() or 4
    n = chunks or prop.chunks(tier)
    cap = prop.wall_cap(tier)
    t0 = _now()
    stats, sigs, samples, viols, digs = Stats(), set(), [], [], {}
    done = 0
    truncated = False
    errors = []
    repo.prepare()
    scratch_root()
    gc.collect()
    gc.freeze()
    end = t0 + cap
    if prop.battery and n > 4:
        fill_battery(workers)
    with proc.Workers(workers, lambda i: run_chunk((prop, seed, tier, i, digests)), n) as pool:
        while True:
            st, res = pool.next(end - _now())
            if st == "end":
                break
            if st == "timeout":
                truncated = True
                break
            if st == "error":
                errors.append(res)
                if len(errors) >= 3:
                    break
                continue
            idx, st, sg, sa, vi, dg = res
            done += 1
            stats.merge(st)
            sigs |= sg
            samples += sa
            digs[idx] = dg
            viols += vi
            if len(viols) >= 1 and not digests:
                break
    viols.sort(key=lambda v: (v["chunk"], len(json.dumps(v["plan"]))))
    return {"stats": stats, "sigs": sigs, "samples": samples, "viols": viols, "chunks": done, "of": n,
            "wall": _now() - t0, "truncated": truncated, "digests": digs, "errors": errors, "workers": workers}


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(obj, f, indent=1)
        f.write("\n")
    os.replace(tmp, path)


def evidence(prop, seed, tier, c, violations, notes=()):
    st = c["stats"]
    wall = max(c["wall"], 1e-6)
    runs = st.get("runs", 0)
    cov = {
        "evaluations": int(st.get("judged", runs)),
        "distinct_nontrivial": len(c["sigs"]),
        "rule": prop.rule,
        "samples": c["samples"][:4],
        "simulated_runs": runs,
        "runs_and_seeds_per_hour": int(runs * 3600 / wall),
        "distinct_measure": prop.measure,
        "chunks": c["chunks"], "chunks_planned": c["of"], "stopped_by_wall_cap": c["truncated"],
        "events_observed": int(st.get("steps", 0)),
        "simulated_seconds": round(st.get("sim_s", 0.0), 3),
        "faults_injected": st.get("faults", {}),
        "probes": st.get("probes", {}),
        "counters": {k: v for k, v in st.items() if k not in ("runs", "steps", "sim_s", "faults", "probes", "judged")},
        "workers": c["workers"],
        "real_components": prop.real,
        "stubbed_components": prop.stub,
    }
    write_json(os.path.join(EVIDENCE, prop.id + ".json"), {
        "property": prop.id, "tier": tier, "seed": seed, "level": prop.level, "coverage": cov,
        "assumptions": prop.assumptions, "wall_s": round(c["wall"], 2), "violations": violations})
    return cov
