"""Writes MANIFEST.json from the claimed checks and properties.jsonl."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
CLAIMS = {
    "C01": ("seeded preemption of simulated threads at lines, bytecodes and call points; oracle: the same document alone in a new process",
            "Every interleaving tried is replayable; exploration, not exhaustion. Atomic inside C functions, as under the GIL."),
    "C02": ("seeded process histories (reuse, failures, repairs, interruptions, thousands of fillers, clock jumps, cache purges, collections); oracle: new process",
            "Histories up to a few thousand conversions in quick, tens of thousands in thorough."),
    "C03": ("interruptions of eight classes delivered at seeded events of one to three threads, then conversions again; oracle: identity of the exception, new process afterwards",
            "Delivery points are lines, bytecodes and call points of the library and xml package; exceptions the interpreter itself drops in a finalizer are not counted."),
    "C04": ("allocation failures inside the interpreter, stack limits, memory and recursion errors at seeded events and from the parser; oracle: exact result or exception, new process afterwards",
            "Runs in which the interpreter itself aborts under an injected allocation failure are discarded and counted."),
    "C05": ("simulated XML parser with planned outcome per attempt (any expat code and column, memory, other exceptions; early, mid, late); oracle: reference automaton of the loop",
            "Attempts are observed at the expat parser; step budget bounds termination."),
    "C06": ("delivery faults that lose attribute values, generated on structured documents; oracle: the same document without the damaged attributes, in a new process",
            "Damage is generated on the tree, so the reference document is exact; recovery is demanded only in the stated cases."),
    "C07": ("delivery faults that tear documents at every kind of position or glue text behind them; oracle: the call raises",
            "Cuts at all or sampled positions; glued copies, next documents and debris."),
    "C08": ("re-entrant conversions started at seeded events of a suspended one, to several levels; oracle: new process, no wait for ever",
            "Nesting at events of library and xml code, including from collections and interruptions."),
    "C09": ("each run is a new interpreter under a seeded environment (hash seed, flags, variables, clock, random state, collector, layout, locale, directory, streams, threads); oracle: the reference process",
            "Only the installed locales (C, POSIX, C.UTF-8) and CPython 3.12 are available; one interpreter build."),
    "C10": ("the simulated process records every audit event and compares its settings around conversions that end normally, by errors, by injected interruptions or shortages; oracle: nothing happened",
            "Effects are recognised by CPython audit events, a settings snapshot and captured streams."),
    "C11": ("one parsed tree converted repeatedly and by several threads with seeded preemptions and abandonments; oracle: first conversion in a new process",
            "Trees as returned by the parsing stage."),
    "C12": ("fork(2) of the simulated process while other simulated threads are suspended in conversions; oracle: new process, no wait for ever in the child",
            "Locks are simulated, so a lock held by a vanished thread is found, not waited for."),
    "C13": ("long seeded histories with interruptions and nesting; oracle: allocated bytes and blocks stay flat over equal phases",
            "Growth of a few bytes per conversion is seen; structures bounded at about ten thousand entries do not alarm."),
    "C14": ("conversions counted in events after seeded histories with failures, interruptions and suspended threads, and hostile documents under a processor-time limit; oracle: steps in a new process, linear bound",
            "Python-level work is counted exactly; work inside C functions only against the processor-time limit."),
    "C15": ("delivery through a channel that breaks lines elsewhere, in sessions of several documents and layouts; oracle: the document as sent, in a new process",
            "White-space changes are generated on the markup, so the reference is exact."),
    "C16": ("conversions stalled at seeded events until all other simulated threads have finished, over simulated locks and clocks; oracle: nobody waits, new process",
            "Any wait of more than half a simulated second for a stalled conversion is a violation."),
    "C17": ("imports cut short at seeded lines of module bodies or by failing module files, then repeated in the same process; oracle: the import succeeds, battery as in a new process",
            "Module files fail as a whole; repeated imports use the documented entry points."),
    "C18": ("a pool of worker processes behind a simulated network (loss, duplication, delay, reordering) with workers that crash at seeded events and are replaced; documents, trees and outcomes are pickled and copied on the way; oracle: new process, every document gets its outcome",
            "Workers are real processes that do one job at a time; the order of deliveries is the simulator's."),
    "C19": ("lives of new processes that end in planned ways while conversions are stopped at seeded events in other threads; exit handlers, exit finalizers and surviving threads convert; oracle: new process, exit status, silence, end within a bound",
            "Finalizers that run while modules are being torn down are not covered; threads run one at a time."),
}
NA = {
    "N01": "a pure function of the document: no schedule, clock, I/O, fault or history for simulation to vary; deciding it is input generation against a grammar",
    "N02": "a pure function of the document; nothing nondeterministic or faulty for a simulator to decide",
    "N03": "a pure function of the document; nothing nondeterministic or faulty for a simulator to decide",
    "N04": "a pure function of the document; an algebraic law over inputs, with no schedule or fault in it",
    "N06": "a relation between the results of two whole inputs; no schedule, time, I/O or fault is involved",
    "N07": "a statement about constant tables; a finite enumeration decides it, simulation adds nothing",
    "N08": "a pure function of attribute values; table-driven, with no nondeterminism to simulate",
    "N09": "a pure function of the document; no schedule, time, I/O or fault is involved",
}
m = {"version": 1, "setup_cmd": "/usr/bin/python3.12 -B -c 'import dst.main; print(sorted(dst.main.props()))'",
     "checks": [{"property": p, "quick_cmd": f"./check.sh {p}", "thorough_cmd": f"./check.sh {p} thorough", "evidence_file": f"evidence/{p}.json",
                 "technique": T + t, "level": "exploration", "level_note": n} for p, (t, n) in CLAIMS.items()],
     "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
     "notes": "No hooks in /repo: the code is observed through sys.monitoring, and through call-point hooks inserted into an in-memory copy of its syntax tree at load time."}
ids = {json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))}
assert ids == set(CLAIMS) | set(NA), ids ^ (set(CLAIMS) | set(NA))
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
