"""python3 tools/trybug.py [ID...] [--checks C01,C02|own|all]: run checks against planted bugs in scratch copies."""
import json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
args = [a for a in sys.argv[1:] if not a.startswith("--")]
which = next((a.split("=")[1] for a in sys.argv[1:] if a.startswith("--checks=")), "own")
ids = args or sorted(os.listdir(os.path.join(VERIF, "seeded")))
ALL = ["C%02d" % i for i in range(1, 20)]
for bid in ids:
    d = os.path.join(VERIF, "seeded", bid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="try-")
    try:
        root = os.path.join(tmp, "repo")
        shutil.copytree("/repo", root, symlinks=True)
        subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=root, check=True)
        checks = [meta["property"]] if which == "own" else ALL if which == "all" else which.split(",")
        res = []
        for c in checks:
            t = time.time()
            env = dict(os.environ, DST_REPO=root, DST_EVIDENCE=tmp + "/ev", DST_REPLAYS=tmp + "/rp")
            r = subprocess.run(["./check.sh", c], cwd=VERIF, env=env, capture_output=True, text=True)
            cls = [l for l in r.stdout.splitlines() if '"class"' in l][:1]
            if r.returncode == 2:
                cls = [l for l in r.stdout.splitlines() if l.startswith("ERROR")][:1]
            res.append(f"{c}={'CAUGHT' if r.returncode == 1 else 'quiet' if r.returncode == 0 else 'ERR'} {cls[0].strip()[:200] if cls else ''} {time.time() - t:.0f}s")
        print(bid, f"[{meta['property']}]", " | ".join(res), flush=True)
    finally:
        shutil.rmtree(tmp, True)
