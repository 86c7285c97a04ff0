"""python3 tools/determinism.py CHUNKS [ID...]: event-log digests of the same seeds under other worker counts and hash seeds.

Prints, per property and seed, the number of runs compared and of chunks that differ.
"""
import json, os, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
chunks = sys.argv[1]
ids = sys.argv[2:] or ["C%02d" % i for i in range(1, 20)]
total = 0
for pid in ids:
    for seed in ("1", "23"):
        seen = {}
        for workers, hashseed in (("8", "0"), ("3", "0"), ("5", "4711"), ("8", "random")):
            env = {"PATH": os.environ["PATH"], "HOME": "/tmp", "LANG": "C.UTF-8", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": hashseed,
                   "VERIF_SEED": seed, "DST_WORKERS": workers, "VERIF_TIER": "quick"}
            if os.environ.get("DST_REPO"):
                env["DST_REPO"] = os.environ["DST_REPO"]
            r = subprocess.run(["setarch", "-R", "/usr/bin/python3.12", "-B", "-m", "dst.main", "digests", pid, chunks], cwd=VERIF, env=env, capture_output=True, text=True)
            for line in r.stdout.splitlines():
                k, _, v = line.partition(" ")
                seen.setdefault(k, []).append(v)
            if r.stderr.strip():
                print(pid, "stderr:", r.stderr[-300:])
        runs = sum(int(v[0].split()[1]) for k, v in seen.items() if k.isdigit())
        bad = [k for k, v in seen.items() if len(v) != 4 or len(set(v)) != 1]
        total += runs * 4
        print(pid, "seed", seed, "chunks", len(seen), "runs", runs, "x4; differing chunks:", bad or "none", flush=True)
print("runs in all:", total)
