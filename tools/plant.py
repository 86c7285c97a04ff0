"""python3 tools/plant.py [ID...]: (re)build and confirm the planted bugs of tools/bugs.py.

Each is applied to a scratch copy of /repo; kept in seeded/ID only when it builds, passes the
stable tests, and its demonstration passes without and fails with the change.
"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import bugs
VERIF = os.path.dirname(HERE)
SRC = "src/mathml_to_latex/"


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)


def tests_pass(root):
    env = dict(os.environ, PYTHONPATH=os.path.join(root, "src"), PYTHONDONTWRITEBYTECODE="1")
    r = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-x", "tests"], root, env=env)
    w = sh(["/opt/venv/bin/python", "-c", "import mathml_to_latex; print(mathml_to_latex.__file__)"], root, env=env).stdout
    assert w.startswith(root), w
    return r.returncode == 0 and "116 passed" in r.stdout, r.stdout[-1500:]


def demo(root, folder):
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    try:
        r = sh(["bash", os.path.join(folder, "demo.sh")], root, env=env, timeout=300)
        return r.returncode, (r.stdout + r.stderr)[-800:]
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def plant(bid, b):
    out = os.path.join(VERIF, "seeded", bid)
    tmp = tempfile.mkdtemp(prefix="plant-")
    try:
        root = os.path.join(tmp, "repo")
        shutil.copytree(os.environ.get("PLANT_REPO", "/repo"), root, symlinks=True)
        folder = os.path.join(tmp, "demo")
        os.mkdir(folder)
        shutil.copy(os.path.join(HERE, "demo_lib.py"), folder)
        open(os.path.join(folder, "demo.py"), "w").write("import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom demo_lib import *\n\n" + b["demo"].lstrip("\n"))
        open(os.path.join(folder, "demo.sh"), "w").write('#!/bin/bash\nexec /usr/bin/python3.12 -B "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(folder, "demo.sh"), 0o755)
        code, text = demo(root, folder)
        if code != 0:
            return f"demo fails on the unchanged tree ({code}): {text}"
        for path, old, new in b["edits"]:
            p = os.path.join(root, SRC + path)
            s = open(p).read()
            if s.count(old) < 1:
                return f"no such text in {path}: {old!r}"
            s = s.replace(old, new, 1)
            open(p, "w").write(s)
        diff = sh(["git", "diff"], root).stdout
        ok, t = tests_pass(root)
        if not ok:
            return "tests fail with the change: " + t
        for i in range(3):
            code, text = demo(root, folder)
            if code == 0:
                return "demo passes with the change: " + text
        open(os.path.join(folder, "patch.diff"), "w").write(diff)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(folder, "meta.json"), "w"), indent=1)
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(folder, out, ignore=shutil.ignore_patterns("__pycache__"))
        return "kept; demo: " + text.strip()[:160]
    finally:
        shutil.rmtree(tmp, True)


if __name__ == "__main__":
    ids = sys.argv[1:] or list(bugs.BUGS)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(int(os.environ.get("PLANT_WORKERS", "6"))) as ex:
        for bid, r in zip(ids, ex.map(lambda i: plant(i, bugs.BUGS[i]), ids)):
            print(bid, "->", r)
