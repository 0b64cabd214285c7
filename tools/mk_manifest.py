"""Writes MANIFEST.json from the property modules that exist."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
CMD = "/opt/venv/bin/python -B -m dst check {}"
TECH = {
    "C01": "deterministic simulation with fault injection: seeded histories of parses on one parser object with aborts injected mid-parse; outcomes compared with a pristine process",
    "C02": "deterministic simulation with fault injection: seeded thread schedules (preemption at library lines, bytecodes, grammar-engine lines) with aborts and short reads; outcomes compared with each text alone",
    "C03": "deterministic simulation with fault injection: seeded sequences and overlaps of library calls and in-process command runs under aborts and I/O faults; process-wide state compared before and after",
    "C04": "deterministic simulation with fault injection: seeded process incarnations with their own hash seed, set order, listing order and route to the object; bytes compared",
    "C05": "deterministic simulation with fault injection: seeded chains of save, crash, restart with short reads and hash seeds; structure and bytes compared across incarnations",
    "C06": "deterministic simulation with fault injection: seeded crash points and torn, stale-tail, zeroed, dropped, duplicated writes; acceptance judged by an independent scanner",
    "C07": "deterministic simulation with fault injection: objects pickled and copied at seeded points of their use, under thread schedules, loaded in processes with other hash seeds; compared with fresh builds",
    "C08": "deterministic simulation with fault injection: seeded open, read, decode faults, short reads, interrupts and rewrites under the real io layers; outcome compared with the delivered bytes",
    "C09": "deterministic simulation with fault injection: seeded in-process runs of the real command with faulty input files and standard output; status and bytes compared with the library calls alone",
    "C10": "deterministic simulation with fault injection: seeded operation histories over an object pool with bad arguments and aborts inside operations; pool compared with its state before and with a fault-free twin",
    "C11": "deterministic simulation with fault injection: seeded schedules of threads reading a shared object pool; results compared with each operation alone, pool with its state before",
    "C12": "deterministic simulation with fault injection: seeded later mutations of the collections objects were made from, at once, later or by another thread under seeded schedules; objects compared with their state before",
    "C13": "deterministic simulation with fault injection: step budget and deadlock detection of the simulator over damaged, cyclic and deep inputs, failing histories and thread schedules",
    "C14": "deterministic simulation with fault injection: seeded first steps of a process (imports in any order, first parses, unpickling, commands) with aborts at library calls during imports and read faults on the grammar; compared with an undisturbed start",
    "C15": "deterministic simulation with fault injection: seeded histories of calls with aborts and I/O faults, repeated with new names; references held by the process counted after each repetition, growth followed over hundreds",
}
NOTE = {
    "*": "Seeded search, not proof: no violation in the runs made with this seed and tier. Trusts the simulator's seams (see DESIGN.md) and the reference named in the technique.",
}
NA = {
    "N01": "acceptance of a text is a pure function of that text: no schedule, clock, I/O, crash or history takes part, so a simulator has nothing to decide (histories around it are C01, C02, C05, C06, C08)",
    "N02": "requirement and type checks are pure functions of one definition; nothing for a scheduler or fault injector to vary",
    "N03": "instantiation is a pure function of two values; interrupted and concurrent instantiation is C10 and C11",
    "N04": "simplification is a pure function of the operands; the part that histories can observe (save and reload) is C05",
    "N05": "equality, hash and order laws are pure; their process, history and concurrency side is C07 and C11",
    "N06": "fit checks are pure functions of the definitions; their failure, history and concurrency side is C09, C10 and C11",
}


def main():
    checks = []
    for p in sorted(TECH):
        if not os.path.exists(os.path.join(ROOT, "dst", "props", p.lower() + ".py")):
            continue
        checks.append({"property": p, "quick_cmd": CMD.format(p), "thorough_cmd": "VERIF_TIER=thorough " + CMD.format(p),
                       "evidence_file": f"evidence/{p}.json", "technique": TECH[p], "level": "exploration",
                       "level_note": NOTE.get(p, NOTE["*"])})
    na = [{"property": k, "reason": v} for k, v in sorted(NA.items())]
    have = {c["property"] for c in checks}
    na += [{"property": p, "reason": "check not built yet"} for p in sorted(TECH) if p not in have]
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -B -m dst setup", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: every seam is put in place from outside (see DESIGN.md). replay: "
                  "/opt/venv/bin/python -B -m dst replay FILE. selftest of determinism: /opt/venv/bin/python -B -m dst selftest Cxx N"}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
