#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the list of claimed properties and sim/na.json.
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claimed = sys.argv[1:] or [f"C{i:02d}" for i in range(1, 19)]
LIB = ("Seeded exploration: the property held in every simulated run of this check. Real: all repository packages, the HTML parser, "
       "the Go runtime's maps (seeded). Simulated: which goroutine runs next (a switch is possible before every statement of the repository), package sync as "
       "the repository uses it, caller code. Trusted: the instrumenter, the simulator, the models in sim/harness. ")
RACE = "Data races are found by the Go race detector, which sees the library's own synchronisation only. "
CLI = ("Seeded exploration of system-call faults, kills and interleavings: the property held in every simulated run. Real: the whole CLI (cmd), library, os package and "
       "a real scratch file system; the system-call boundary of the Go standard library is intercepted, where errors, short transfers, kills and task switches are injected. "
       "Simulated: process scheduling and exit, stdin/stdout/stderr. Trusted: the interception layer, the file-system model of expected contents in sim/harness. ")
tech = {
 **{f"C{i:02d}": "deterministic simulation: seeded statement-level goroutine scheduling of the instrumented library" for i in range(1, 12)},
 "C01": "deterministic simulation: seeded statement-level goroutine scheduling, solo-process oracle, race detection across hand-offs",
 "C02": "deterministic simulation: seeded goroutine scheduling, call/return history checked against must/may windows, race detection",
 "C03": "deterministic simulation: seeded scheduling of handler programs against a reference interpreter, with injected panics",
 "C04": "deterministic simulation: seeded scheduling with scripted re-entrant callbacks, deadlock and bounded-progress detection",
 "C05": "deterministic simulation: seeded scheduling with injected configuration failures, history check",
 "C06": "deterministic simulation: injected panics at the k-th call of every caller-supplied function, solo-process oracle",
 "C07": "deterministic simulation: context cancellation injected at any scheduling point, solo-process oracle",
 "C08": "deterministic simulation: seeded reader delivery schedules (splits, empty reads, EOF placement)",
 "C09": "deterministic simulation: reader fault injection at seeded offsets and in seeded ways",
 "C10": "deterministic simulation: seeded scheduling with result mutation, memory-range and race checks",
 "C11": "deterministic simulation: seeded map-iteration, pool, GC and history nondeterminism against pristine processes",
 "C12": "deterministic simulation: system-call fault injection and environment races, protected-file invariant after every call",
 "C13": "deterministic simulation: system-call fault injection (errors, short transfers, disk full), output oracle",
 "C14": "deterministic simulation: kill at every system call and fault injection, file-tree history check",
 "C15": "deterministic simulation: sequences of crashed and failed runs, then convergence check on a healthy disk",
 "C16": "deterministic simulation: concurrent CLI processes interleaved at system calls",
 "C17": "deterministic simulation: stdin and stdout fault and delivery schedules",
 "C18": "deterministic simulation: conversions ended early by injected failures, panics and cancellations; every caller-code call attributed to a live conversion",
}
checks = []
for p in claimed:
    note = CLI if "C12" <= p <= "C17" else LIB + (RACE if p in ("C01", "C02", "C10") else "")
    checks.append({"property": p, "quick_cmd": f"bin/check.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough bin/check.sh {p}",
                   "evidence_file": f"evidence/{p}.json", "technique": tech[p],
                   "level": "exploration", "level_note": note + "Not covered: schedules and faults no seed drew; preemption inside dependencies."})
na = [{"property": a, "reason": b} for a, b in json.load(open(f"{V}/sim/na.json"))]
for i in range(1, 19):
    p = f"C{i:02d}"
    if p not in claimed:
        na.append({"property": p, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bin/setup.sh", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none: instrumented copies of the sources are made at check time and used through go build -overlay; nothing is committed in /repo for it",
               "enable": "bin/build.sh (sim/vinstr writes the overlay, go build -overlay uses it)", "source_commits": []},
     "notes": "Commits in /repo are repairs only (fix: ...), listed in known-findings.txt. bin/replay.sh FILE runs a replay file again."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
