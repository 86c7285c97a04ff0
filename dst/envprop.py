"""C09 (independence of the process environment) and C13 (retained memory)."""
import json
import os
import shutil
import signal
import subprocess

from . import battery as B
from . import campaign as C
from . import docs as D
from . import proc, props as P, repo

HERE = os.path.dirname(os.path.abspath(__file__))


def scratch():
    """Working directory of this process, and the directory for compiled modules, both private to the check."""
    work = os.path.join(C.scratch_root(), str(os.getpid()))
    os.makedirs(work, exist_ok=True)
    return work, os.path.join(C.scratch_root(), "pyc")


_norandomize = None


def prefix():
    """Memory layout is a planned quantity where the kernel lets us fix it."""
    global _norandomize
    if _norandomize is None:
        try:
            ok = subprocess.run(["setarch", "-R", "true"], capture_output=True).returncode == 0
        except OSError:
            ok = False
        _norandomize = ["setarch", "-R"] if ok else []
    return _norandomize


VARS = ["LANG", "LC_ALL", "TZ", "HOME", "USER", "TERM", "COLUMNS", "NO_COLOR", "TMPDIR", "DEBUG", "VERBOSE", "LOG_LEVEL", "CI", "ENV",
        "PYTHONIOENCODING", "PYTHONUTF8", "PYTHONMALLOC", "PYTHONDEVMODE", "PYTHONNODEBUGRANGES", "PYTHONASYNCIODEBUG", "PYTHONWARNINGS",
        "MATHML_TO_LATEX_DEBUG", "MATHML_TO_LATEX_STRICT", "MATHML_DEBUG", "LATEX_MODE", "PYTEST_CURRENT_TEST"]
VALS = {"LANG": ["C", "en_US.UTF-8", "tr_TR.UTF-8", "de_DE", ""], "LC_ALL": ["C", "POSIX", "C.UTF-8", "tr_TR.UTF-8"],
        "TZ": ["UTC", "Asia/Kathmandu", "XYZ+13", "UTC-14"], "PYTHONIOENCODING": ["ascii", "latin-1", "utf-16"], "PYTHONUTF8": ["0", "1"],
        "PYTHONMALLOC": ["malloc", "pymalloc", "debug", "pymalloc_debug", "malloc_debug"], "PYTHONDEVMODE": ["1"], "PYTHONNODEBUGRANGES": ["1"],
        "PYTHONASYNCIODEBUG": ["1"], "PYTHONWARNINGS": ["ignore", "always", "default"], "TERM": ["dumb", "xterm-256color"], "COLUMNS": ["1", "500"]}
FLAGS = [["-O"], ["-OO"], ["-O"], ["-OO"], ["-X", "dev"], ["-X", "utf8=0"], ["-X", "utf8=1"], ["-X", "frozen_modules=off"], ["-X", "no_debug_ranges"],
         ["-X", "importtime"], ["-S"], ["-s"], ["-u"], ["-W", "ignore"], ["-W", "always"], ["-X", "tracemalloc=1"], ["-b"], ["-X", "int_max_str_digits=640"]]
TIMES = [0.0, 1.0, 946684799.0, 1e9, 1.7e9, 2147483646.5, 2147483648.0, 4102444799.0, 951782399.0, 1709164800.0, 1735689599.9]


CONTEXTS = ["task", "executor", "generator", "finalizer", "weakref", "gc", "signal", "context", "except", "deep", "fork", "plain"]
PLATFORMS = [["win32", "nt", "\r\n", "Windows"], ["darwin", "posix", "\n", "Darwin"], ["emscripten", "posix", "\n", "Emscripten"], ["cygwin", "posix", "\n", "CYGWIN_NT"], ["linux", "posix", "\r", "Linux"]]
STEPS = [[-3600.0, 0.0], [0.0], [1e-6, 86400.0, -86400.0], [-1e-3], [0.0, 0.0, 7200.0], [1e6], [-1.0, 5.0, -2.0, 31536000.0], [1800.0]]


def gen_setting(rng, early):
    k = rng.choice(["clock", "clock", "clock-steps", "clock-steps", "context", "context", "context", "context", "pid", "host", "platform", "random", "consume-random", "gc-off", "gc-threshold", "gc-freeze", "gc", "re-purge", "ballast", "ballast", "holes", "drop",
                    "locale", "chdir", "lost-cwd", "setenv", "unsetenv", "warnings", "recursionlimit", "switchinterval", "umask", "argv", "std", "close-std",
                    "thread", "thread", "preload", "decimal", "int-digits", "excepthook", "profile", "trace", "intern", "main-name", "nofiles"])
    if k == "clock":
        return [k, rng.choice(TIMES) if rng.random() < 0.6 else rng.uniform(0, 4e9)]
    if k == "clock-steps":
        return [k, rng.choice(STEPS)]
    if k == "context":
        return [k, rng.choice(CONTEXTS)]
    if k == "pid":
        return [k, rng.choice([1, 2, 1000, 4194303])]
    if k == "host":
        return [k, rng.choice(["", "localhost", "ci-runner-7", "h\u00f6st"])]
    if k == "platform":
        return [k, rng.choice(PLATFORMS)]
    if k in ("random",):
        return [k, rng.randrange(1 << 30)]
    if k == "consume-random":
        return [k, rng.randrange(1, 700)]
    if k == "gc-threshold":
        return [k, rng.choice([[1, 1, 1], [1, 1, 1], [7, 2, 1], [100, 1, 1], [50000, 100, 100]])]
    if k in ("ballast", "holes"):
        return [k, rng.choice([1, 3, 50, 1000, 20000])]
    if k == "locale":
        return [k, rng.choice(["C", "POSIX", "C.UTF-8", "C.utf8", ""])]
    if k == "chdir":
        return [k, rng.choice(["/", "/tmp", "/usr", "SCRATCH"])]
    if k == "lost-cwd":
        return [k, "SCRATCH/lost"]
    if k == "setenv":
        v = rng.choice(VARS)
        return [k, [v, rng.choice(VALS.get(v, ["0", "1", "true", "x"]))]]
    if k == "unsetenv":
        return [k, rng.choice(VARS)]
    if k == "warnings":
        return [k, rng.choice(["ignore", "always", "default", "once", "module"])]
    if k == "recursionlimit":
        return [k, rng.choice([1000, 1500, 5000, 20000])]
    if k == "switchinterval":
        return [k, rng.choice([1e-6, 0.005, 10.0])]
    if k == "umask":
        return [k, rng.choice([0, 0o77, 0o777])]
    if k == "argv":
        return [k, rng.choice([[], ["x"], ["prog", "--debug", "-v"], ["pytest"]])]
    if k == "std":
        return [k, rng.choice([["stdout"], ["stderr"], ["stdin"], ["stdin", "stdout", "stderr"]])]
    if k == "close-std":
        return [k, rng.choice([[0], [1], [2], [0, 1, 2]])]
    if k == "thread":
        return [k, rng.random() < 0.7]
    if k == "preload":
        return [k, rng.sample(["json", "decimal", "xml.etree.ElementTree", "xml.sax", "logging", "asyncio", "locale", "html", "unittest", "ctypes", "random", "datetime"], rng.choice([1, 3]))]
    if k == "decimal":
        return [k, rng.choice([1, 3, 50])]
    if k == "int-digits":
        return [k, rng.choice([640, 0])]
    if k in ("profile", "trace"):
        return [k, rng.random() < 0.7]
    if k == "intern":
        return [k, ["math", "mi", "mo", "open", "bold", "+", "x"]]
    if k == "main-name":
        return [k, "app"]
    if k == "nofiles":
        return [k, rng.choice([64, 256])]
    return [k]


class C09(P.Prop):
    id = "C09"
    battery = False
    rule = ("A run starts the library in a new interpreter under a sampled environment (hash seed, interpreter flags, environment variables, and before or between conversions: "
            "clock jumps, random-generator state, collector settings, memory layout, locale, working directory, closed streams, threads, preloaded modules, hooks) "
            "and converts a batch of documents; non-trivial: at least two environment dimensions differ from the reference process.")
    measure = "distinct (flags, variables, sequence of settings) environments"
    real = ["mathml_to_latex (all modules, from /repo's working tree)", "xml.dom.minidom / pyexpat / re", "a new CPython 3.12 process per run"]
    stub = ["clocks (replaced when the plan sets the time)", "address-space randomisation (off where the kernel allows; layout varied by planned allocations)"]
    quick_chunks = 48

    def chunk(self, rng, ctx, idx):
        prof = D.gen_profile(rng)
        docs = P.pool(rng, ctx, 20, profile=prof) + [{"raw": t} for t in rng.sample(D.BROKEN, 8) if P.usable(ctx, {"raw": t})]
        docs += [d for d in FIXED if P.usable(ctx, d)]
        docs += [{"raw": B.DOCS[b]} for b in rng.sample(range(len(B.FEATURES)), 40)]
        asked = discoveries()
        for _ in range(12):
            env = {}
            for v in rng.sample(VARS, rng.choice([0, 1, 2, 6])):
                env[v] = rng.choice(VALS.get(v, ANY))
            for v in rng.sample(asked["vars"], min(len(asked["vars"]), rng.choice([0, 1, 1, 2, 4]))):
                env[v] = rng.choice(VALS.get(v, ANY))
            flags = [f for fs in rng.sample(FLAGS, rng.choice([0, 1, 1, 2])) for f in fs]
            ops = []
            order = list(range(len(docs)))
            rng.shuffle(order)
            for d in order:
                ops.append([d, [gen_setting(rng, False) for _ in range(rng.choice([0, 0, 0, 1, 1, 2]))]])
            plan = {"docs": docs, "env": env, "flags": flags, "hashseed": rng.randrange(1 << 32), "pre": [gen_setting(rng, True) for _ in range(rng.choice([0, 1, 2, 4]))],
                   "ops": ops, "shared": rng.random() < 0.5, "import_in_thread": rng.random() < 0.15, "late": rng.random() < 0.08,
                   "place": rng.choice(["src"] * 8 + ["copy", "zip"])}
            if asked["files"] and rng.random() < 0.5:
                plan["pre"] += [["file", [f, rng.choice(CONTENTS)]] for f in rng.sample(asked["files"], min(len(asked["files"]), rng.choice([1, 1, 3])))]
            if asked["vars"] and rng.random() < 0.3:
                rng.choice(ops)[1].append(["setenv", [rng.choice(asked["vars"]), rng.choice(ANY)]])
            yield plan

    def run(self, ctx, plan):
        outs, code = self.process(plan)
        if outs and outs[0][0] == "harness":
            code, outs = outs[0][1], None
        if outs is None:
            raise proc.HarnessError(f"environment run gave no result (status {code}\nplan {json.dumps({k: v for k, v in plan.items() if k != 'docs'})[:1500]})")
        return self.result(plan, outs)

    def process(self, plan, discover=False):
        """One new interpreter under the planned environment: (its report or None, exit status)."""
        work, pyc = scratch()
        home = os.path.join(work, "home")
        shutil.rmtree(home, ignore_errors=True)
        os.makedirs(home)

        def fix(s):
            if s[0] == "file":
                return [s[0], [s[1][0].replace("SCRATCH", work), s[1][1]]]
            return [s[0], s[1].replace("SCRATCH", work)] if s[0] in ("chdir", "lost-cwd") else s
        job = {"discover": discover, "import_in_thread": plan.get("import_in_thread"), "late": plan.get("late"), "sys_path": self.place(plan.get("place", "src"), work), "pre": [fix(s) for s in plan["pre"]], "shared": plan.get("shared"),
               "ops": [[D.render(plan["docs"][d]), [fix(s) for s in ss]] for d, ss in plan["ops"]]}
        env = {"PATH": "/usr/bin:/bin", "HOME": home, "PYTHONPYCACHEPREFIX": pyc}
        env.update(plan["env"])
        env["PYTHONHASHSEED"] = str(plan["hashseed"])
        ri, wi = os.pipe()
        ro, wo = os.pipe()
        with open(os.devnull, "r+b") as null, open(os.path.join(work, "stderr"), "w+b") as err:
            # fds must survive in the child under the same numbers
            child = subprocess.Popen(prefix() + ["/usr/bin/python3.12"] + plan["flags"] + [os.path.join(HERE, "envworker.py"), repo.SRC, str(ri), str(wo)],
                                     stdin=null, stdout=null, stderr=err, env=env, cwd=home, pass_fds=(ri, wo), start_new_session=True)
        os.close(ri)
        os.close(wo)
        try:
            try:
                proc.write_all(wi, json.dumps(job).encode())
            except BrokenPipeError:
                pass
            os.close(wi)
            data = b""
            end = proc._real_time() + 60
            import select
            while True:
                left = end - proc._real_time()
                if left <= 0:
                    raise proc.ChildTimeout("environment run exceeded 60 s")
                r, _, _ = select.select([ro], [], [], left)
                if r:
                    b = os.read(ro, 1 << 16)
                    if not b:
                        break
                    data += b
        finally:
            os.close(ro)
            try:
                os.killpg(child.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            child.wait()
            shutil.rmtree(os.path.join(work, "lost"), ignore_errors=True)
            for d in ("home", "installed"):
                shutil.rmtree(os.path.join(work, d), ignore_errors=True)
        try:
            return json.loads(data), child.returncode
        except ValueError:
            with open(os.path.join(work, "stderr"), "rb") as f:
                return None, f"{child.returncode}: {f.read()[-1500:].decode(errors='replace')}"

    @staticmethod
    def place(kind, work):
        """Where the package lies: the working tree, a copy elsewhere, or an archive."""
        if kind == "src":
            return None
        d = os.path.join(work, "installed")
        os.makedirs(d, exist_ok=True)
        if kind == "copy":
            d = os.path.join(d, "site packages \u00e9")
            shutil.copytree(repo.SRC, d, dirs_exist_ok=True, ignore=shutil.ignore_patterns("__pycache__"))
            return d
        import zipfile
        z = os.path.join(d, "lib.zip")
        with zipfile.ZipFile(z, "w") as f:
            for root, _, names in os.walk(repo.SRC):
                for n in sorted(names):
                    if not n.endswith(".pyc"):
                        f.write(os.path.join(root, n), os.path.relpath(os.path.join(root, n), repo.SRC))
        return z

    def result(self, plan, outs):
        faults = {"new process": 1}
        for key in ("import_in_thread", "late"):
            if plan.get(key):
                faults[{"late": "conversions at exit"}.get(key, "import in a thread")] = 1
        if plan.get("place", "src") != "src":
            faults["imported from a " + plan["place"]] = 1
        for f in plan["flags"]:
            faults["flag " + f] = 1
        for v in plan["env"]:
            faults["env var " + v] = 1
        for s in plan["pre"] + [s for _, ss in plan["ops"] for s in ss]:
            name = s[0] if s[0] != "context" else "context " + s[1]
            faults[name] = faults.get(name, 0) + 1
        sim_s = 0.0
        last = 1.7e9
        for s in plan["pre"] + [s for _, ss in plan["ops"] for s in ss]:
            if s[0] == "clock":
                sim_s += abs(s[1] - last)
                last = s[1]
        return {"hist": outs, "fatal": None, "digest": "%016x" % C.derive(json.dumps(outs)), "itl": self._sig(plan), "switches": 0, "steps": 0,
                "sim_s": sim_s, "faults": faults, "fired": [], "n": [], "probes": {}}

    def _sig(self, plan):
        return C.derive(plan["flags"], sorted(plan["env"].items()), plan["hashseed"], plan["pre"], plan["ops"], plan.get("late"), plan.get("place"), plan.get("import_in_thread"))

    def nontrivial(self, plan, res):
        return len(plan["flags"]) + len(plan["env"]) + len(plan["pre"]) + sum(len(s) for _, s in plan["ops"]) >= 2

    def judge(self, ctx, plan, res, stats):
        outs = res["hist"]
        if outs and outs[0][0] == "import":
            return {"class": "import-differs", "detail": "the library cannot be imported in this environment", "got": outs[0], "environment": self._env(plan)}
        for (d, _), o in zip(plan["ops"], outs):
            stats.add("judged")
            text = D.render(plan["docs"][d])
            exp = ctx.expect(text)
            if exp is not None and o != exp:
                return {"class": "environment-dependent", "detail": "outcome differs from that in the reference process", "document": text, "expected": exp, "got": o,
                        "environment": self._env(plan)}
        return None

    def _env(self, plan):
        return {k: plan[k] for k in ("flags", "env", "hashseed", "pre", "late", "place", "import_in_thread") if k in plan} | {"between": [s for _, ss in plan["ops"] for s in ss][:10]}

    def sample(self, plan, res):
        return {"documents": [D.render(plan["docs"][d])[:200] for d, _ in plan["ops"][:3]], "environment": self._env(plan), "outcomes": res["hist"][:3]}

    def shrinks(self, plan):
        for key in ("ops", "pre", "flags"):
            if key == "flags" and plan["flags"]:
                p = C.copy(plan)
                p["flags"] = []
                yield p
            elif key != "flags":
                yield from C.shrink_list(plan, key, 1 if key == "ops" else 0)
        for key in ("late", "import_in_thread", "place"):
            if plan.get(key) not in (None, False, "src"):
                p = C.copy(plan)
                del p[key]
                yield p
        for v in list(plan["env"]):
            p = C.copy(plan)
            del p["env"][v]
            yield p
        if plan["hashseed"]:
            for h in (0, 1, 2):
                if h < plan["hashseed"]:
                    p = C.copy(plan)
                    p["hashseed"] = h
                    yield p
        for i, (d, ss) in enumerate(plan["ops"]):
            for j in range(len(ss)):
                p = C.copy(plan)
                del p["ops"][i][1][j]
                yield p
        if len(plan["ops"]) <= 3:
            for di in sorted({d for d, _ in plan["ops"]}):
                for doc in C.shrink_doc(plan["docs"][di]):
                    p = C.copy(plan)
                    p["docs"][di] = doc
                    yield p


ANY = ["0", "1", "true", "x", "", "strict", "all", "*"]
CONTENTS = ["", "1", "{}", "[mathml]\nstrict = true\n", "{\"strict\": true, \"debug\": true}", "a\nb\n"]
CONTENTS += [{n + e: c for n in ("mi", "mo", "mn", "mtext", "mfrac", "msqrt", "mtable", "mfenced", "math", "msup", "x", "a", "\u03b1", "config", "settings", "symbols")} for e, c in (("", ""), (".tex", "\\x"), (".json", "{}"), (".txt", "x"))]
_asked = None


def discoveries():
    """What the library asks of its process while it is imported and converts the battery (once per worker)."""
    global _asked
    if _asked is None:
        docs = [{"raw": t} for t in B.FEATURES]
        plan = {"docs": docs, "env": {}, "flags": [], "hashseed": 0, "pre": [], "ops": [[i, []] for i in range(len(docs))], "shared": False}
        rep, code = ALL_C09.process(plan, discover=True)
        work, _ = scratch()
        if rep is None:
            raise proc.HarnessError(f"discovery run: {code}")
        files = [f.replace(work, "SCRATCH") for f in rep["files"] if f.startswith(work + os.sep) and "/installed" not in f]
        _asked = {"vars": [v for v in rep["vars"] if v not in ("PATH", "PYTHONHASHSEED", "PYTHONPYCACHEPREFIX")], "files": files}
    return _asked


# documents every environment must convert alike: each construct, error path and repair once
FIXED = [{"raw": t} for t in [
    '<math><mfenced open="{" close="]" separators=";,"><mi>a</mi><mi>b</mi><mi>c</mi><mi>d</mi></mfenced></math>',
    '<math><mtable><mtr><mtd><mi>a</mi></mtd><mtd><mi>b</mi></mtd></mtr><mtr><mtd><mi>c</mi></mtd></mtr></mtable></math>',
    '<math><mi mathvariant="bold-italic">x</mi><mi mathvariant="fraktur">&#x3B1;</mi><mtext>if &#x2200; x</mtext></math>',
    '<math><menclose notation="roundedbox circle top bottom"><mi>I</mi></menclose><mo>&#x2211;</mo><mn>1.5</mn></math>',
    '<math><mfrac><mi>a</mi></mfrac></math>', '<math><msup><mi>a</mi><mi>b</mi><mi>c</mi></msup></math>', '<math><mroot><mi>a</mi></mroot></math>',
    '<math><munderover><mi>a</mi><mi>b</mi></munderover></math>', '<math><mmultiscripts><mi>F</mi></mmultiscripts></math>', '<math><mover><mi>a</mi></mover></math>',
    '<math><mmultiscripts><mi>F</mi><mn>1</mn><mn>2</mn><mprescripts/><mn>3</mn><mn>4</mn></mmultiscripts></math>',
    '<math><maction actiontype="toggle"><mi>a</mi><mi>b</mi></maction><mphantom><mi>q</mi></mphantom><merror><mi>e</mi></merror></math>',
    '<math><mfenced open= close=><mi>x</mi></mfenced></math>', '<math><mi mathvariant>x</mi></math>', '<math><mfrac bevelled="true"><mi>a</mi><mi>b</mi></mfrac></math>',
    '<math><mi>I</mi><mi>i</mi><mi>&#x130;&#x131;</mi><mi>SIN</mi><mi>sin</mi><mo>lim</mo></math>', '<math><mspace width="2em"/><mglyph alt="g"/><ms>q</ms></math>',
]]


ALL_C09 = P.ALL["C09"] = C09()


# ------------------------------------------------------------------------ C13
class C13(P.Prop):
    id = "C13"
    battery = False
    rule = ("A run is one long history: a warm-up of thousands of distinct documents and then equal phases of more of them (one kind or a mixture: new symbols, attributes and "
            "names, failing and repaired documents, abandoned and nested conversions; new, shared or long-lived converters); after each phase, with the regex cache emptied and "
            "garbage collected, the bytes still allocated are compared. Non-trivial: at least 1000 conversions.")
    measure = "distinct (document kind, converter use, fault use) histories"
    quick_chunks = 32
    KINDS = ["tok", "fail", "repair", "deep", "attr", "mix", "same", "sym", "table", "style", "script", "unknown", "multi", "ns", "big", "raw"]

    def chunk(self, rng, ctx, idx):
        kind = self.KINDS[idx % len(self.KINDS)]
        mode = (idx // len(self.KINDS)) % 4
        size = {"big": 0.2}.get(kind, 1.0)
        if ctx.tier != "quick":
            size *= 4
        op = {"op": "churn", "k": kind, "c": rng.choice(["any", "new", "shared", "adapter", "class"]), "warm": int(1300 * size), "n": int(700 * size), "phases": 4, "seed": rng.randrange(1 << 30)}
        if mode % 2:
            op["abandon"] = 1
            op["span"] = rng.choice([150, 500, 1500])
            if rng.random() < 0.3:
                op["nest"] = 1
            op["warm"] = op["warm"] * 2 // 3
            op["n"] = op["n"] * 2 // 3
        if idx % 4 == 1:
            op["threads"] = 1
        yield {"docs": [{"raw": "<math><msqrt><mi>n</mi></msqrt></math>"}], "tasks": [[op]], "actions": [], "gran": rng.choice(["line", "line", "hook"]), "tracemalloc": 1}

    def run(self, ctx, plan):
        res = ctx.run(plan, timeout=600)
        op = plan["tasks"][0][0]
        if op["warm"] < 9000 and self.growth(op, res):
            # a large bounded cache also grows at first: only growth that goes on after a far longer history counts
            plan["tasks"][0][0] = op = dict(op, warm={"mix": 40000, "big": 9000}.get(op["k"], 12000))      # in a mixture each kind is rare
            op["n"] = op["warm"] // 4          # a list of many entries grows in large steps
            res = ctx.run(plan, timeout=600)
            res["probes"]["looked at over a longer history"] = 1
        return res

    def growth(self, op, res):
        for r in res["hist"]:
            if r["op"] == "churn":
                for name, unit in (("bytes", 1.5), ("blocks", 0.03)):
                    g = [b - a for a, b in zip(r[name], r[name][1:])]
                    # lists and tables grow by doubling: the whole stretch is judged
                    if sum(g) >= unit * op["n"] * len(g) + 20 and sum(1 for x in g if x > 0) >= len(g) - 1 and sum(g[2:]) >= unit * op["n"] + 8:
                        return f"retained {name} grow with every phase of {op['n']} conversions: {r[name]}"
        return None

    def nontrivial(self, plan, res):
        return res["probes"].get("conversions", 0) >= 1000

    def signature(self, plan, res):
        op = plan["tasks"][0][0]
        return C.derive(op["k"], op["c"], op.get("abandon"), op.get("nest"), op.get("span"), op.get("threads"), plan["gran"])

    def judge(self, ctx, plan, res, stats):
        f = self.fatal(res)
        if f:
            return f
        op = plan["tasks"][0][0]
        stats.add("judged", len(res["hist"][0]["bytes"]) - 1)
        stats.add("conversions", res["probes"].get("conversions", 0))
        g = self.growth(op, res)
        if g:
            return {"class": "memory-grows", "detail": g, "history": op}
        return None

    def sample(self, plan, res):
        return {"history": plan["tasks"][0][0], "retained_bytes_after_each_phase": res["hist"][0]["bytes"], "allocated_blocks": res["hist"][0]["blocks"]}

    def shrinks(self, plan):
        return []          # a history of one kind of conversion is as small as it gets, and each run is long


P.ALL["C13"] = C13()
