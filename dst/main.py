"""python3 -m dst.main check ID | replay FILE | digests ID CHUNKS"""
import json
import os
import subprocess
import sys

from . import campaign as C
from . import proc, repo


def props():
    from . import props as P
    from . import envprop, exitprop, pool, props2  # noqa  (register further properties)
    return P.ALL


def known_match(known, pid, v):
    for k in known:
        if k.get("property") == pid and k.get("status") == "open" and k.get("class") == v["class"]:
            if k.get("document") is not None and k["document"] != v.get("document"):
                continue
            return k
    return None


def check(pid, tier, seed):
    prop = props()[pid]
    print(f"property={pid} tier={tier} VERIF_SEED={seed} repo={repo.REPO}", flush=True)
    try:
        repo.prepare()
    except repo.BuildError as e:
        print("ERROR: the package does not build:", e)
        return 2
    known = C.load_known()
    for k in known:
        if k.get("property") == pid and k.get("status") == "open":
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    c = C.campaign(prop, seed, tier)
    fresh = [v for v in c["viols"] if not known_match(known, pid, v["v"])]
    code = 0
    if fresh:
        ctx = C.Ctx(tier)
        done = False
        for cand in fresh[:4]:
            plan, cls = cand["plan"], cand["v"]["class"]
            small, tests = C.shrink(prop, ctx, plan, cls)
            for p in (small, plan) if small is not plan else (plan,):
                path = write_replay(prop, seed, tier, p, cls, cand["chunk"], tests)
                if path and confirm(path):
                    with open(path) as f:
                        r = json.load(f)
                    print(json.dumps(r["violation"], indent=1)[:3000])
                    print(f"VIOLATION property={pid} replay={path}")
                    done = True
                    break
            if done:
                break
        if done:
            code = 1
        else:
            print("ERROR: a violation was seen but its replay in a new process does not reproduce it:", json.dumps(fresh[0]["v"])[:1500])
            code = 2
    elif c["errors"]:
        print("ERROR in harness:", c["errors"][0])
        code = 2
    elif c["stats"].get("runs", 0) == 0:
        print("ERROR: no run completed")
        code = 2
    elif c["truncated"] and c["chunks"] < max(1, c["of"] // 10):
        print("ERROR: wall cap reached before a tenth of the planned chunks")
        code = 2
    cov = C.evidence(prop, seed, tier, c, len(fresh) if code == 1 else 0)
    print(f"runs={cov['simulated_runs']} judged={cov['evaluations']} distinct={cov['distinct_nontrivial']} events={cov['events_observed']} wall={c['wall']:.1f}s exit={code}")
    return code


def write_replay(prop, seed, tier, plan, cls, chunk, tests):
    ctx = C.Ctx(tier)
    try:
        res, v = C.evaluate(prop, ctx, plan, C.Stats())
    except (proc.HarnessError, AssertionError) as e:
        print("note: candidate not replayable:", str(e)[-300:])
        return None
    if not v or v["class"] != cls:
        return None
    os.makedirs(C.REPLAYS, exist_ok=True)
    path = os.path.join(C.REPLAYS, f"{prop.id}-{seed}-{C.derive(json.dumps(plan)) % 10**8:08d}.json")
    used = sorted({d for ops in plan["tasks"] for op in ops for d in ([op["d"]] if "d" in op else []) + op.get("ds", [])} |
                  {a[3] for a in plan.get("actions", []) if a[2] == "nest" and not isinstance(a[3], dict)}) if "tasks" in plan else []
    C.write_json(path, {"property": prop.id, "verif_seed": seed, "tier": tier, "chunk": chunk, "class": cls, "violation": v,
                        "digest": res.get("digest"), "documents": {str(d): __import__("dst.docs", fromlist=["x"]).render(plan["docs"][d]) for d in used},
                        "fired": res.get("fired"), "shrink_tests": tests, "plan": plan,
                        "replay_cmd": f"cd /verif && ./check.sh replay {path}"})
    return path


def confirm(path):
    """The replay file must show the same violation with the same event log in a new process."""
    r = subprocess.run([sys.executable, "-B", "-m", "dst.main", "replay", path], cwd=C.VERIF, capture_output=True, text=True, timeout=300)
    if r.returncode == 3:
        print("note: the violation is reproduced, but the event log differs between processes: the code under test depends on something outside the simulation")
    return r.returncode in (1, 3)


def replay(path, verbose=False):
    with open(path) as f:
        r = json.load(f)
    prop = props()[r["property"]]
    repo.prepare()
    ctx = C.Ctx(r.get("tier", "quick"))
    res, v = C.evaluate(prop, ctx, r["plan"], C.Stats())
    same = res.get("digest") == r.get("digest")
    if v and v["class"] == r["class"]:
        print(json.dumps(v, indent=1)[:3000])
        print("event log identical" if same else "event log differs from the recorded one")
        print(f"VIOLATION property={r['property']} replay={path}")
        return 1 if same else 3
    print("not reproduced", json.dumps(v)[:500] if v else "(property held)")
    return 0


def main(argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if argv[:1] == ["check"]:
        return check(argv[1], tier, seed)
    if argv[:1] == ["replay"]:
        return replay(argv[1])
    if argv[:1] == ["digests"]:
        c = C.campaign(props()[argv[1]], seed, tier, chunks=int(argv[2]), digests=True)
        for i in sorted(c["digests"]):
            print(i, C.derive(*c["digests"][i]), len(c["digests"][i]))
        for v in c["viols"][:2]:
            print("viol", v["v"]["class"])
        for e in c["errors"]:
            print("error", e[-400:])
        return 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
