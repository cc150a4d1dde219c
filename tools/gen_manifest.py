#!/usr/bin/env python3
"""Writes MANIFEST.json. CLAIMED lists the properties that have a check."""
import json, os, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOOKS = ["230cdea", "4ab7deb"]
D = "seeded deterministic simulation"
T = "trusts the reference solver, DRAT checker and model judge in /verif/sim, and the shim's model of the kernel; samples schedules and faults, does not enumerate them"
CLAIMED = {
 "C01": (D + " of the solver library under simulated clock, hash seeds and heuristic events; every model judged", "exploration"),
 "C02": (D + " of the solver library under simulated clock, hash seeds and heuristic events; verdicts judged by proof or reference solver", "exploration"),
 "C03": (D + " of the solver library; every run must end with a verdict", "exploration"),
 "C04": (D + " of the solver library with proof logging; every proof checked by an independent DRAT checker", "exploration"),
 "C06": (D + " of the solver library and the splr command with the clock crossing the time limit at drawn moments", "exploration"),
 "C08": (D + " of the solver library with clause limits around the sizes reached; verdicts and resource errors judged", "exploration"),
 "C11": (D + " of formula loading with split, interrupted and failing reads and corrupted literals", "exploration"),
 "C12": (D + " of pairs of runs that differ in clock, entropy, heap, I/O splitting, process and directory only; results compared", "exploration"),
 "C13": (D + " of several solvers in one process under a seeded thread scheduler or interleaved in sequence; each compared with itself alone", "exploration"),
 "C14": (D + " of sequences of library calls on one solver (add, solve, reset, assign, save, drop) with faults in between, against a model of the clause set", "exploration"),
 "C05": (D + " of the splr command with failing, full, short and interrupted proof files; announced proofs checked", "exploration"),
 "C07": (D + " of the splr command with its time-out thread under a seeded scheduler; reports, exit status and answer files judged", "exploration"),
 "C09": (D + " of the splr command with failing answer files and standard output; line, status, truth and answer compared", "exploration"),
 "C10": (D + " of sequences of splr and dmcr runs killed at I/O operations with torn writes; files left and final run judged", "exploration"),
 "C16": (D + " of the dmcr command and the validation API with damaged answers and failing reads; reports judged against the literals", "exploration"),
 "C15": (D + " of formula saving with short, interrupted and failing writes and full disks; saved files compared semantically", "exploration"),
 "C17": (D + " of the library (solving, limits, loading, saving, histories, several solvers, validation, clock and I/O faults) in a build with compiler-inserted checks before every unchecked access", "exploration", "trusts the compiler's checks (-Zub-checks): bounds, alignment, null, non-zero and overlap of unchecked operations; data races and reads of stale memory inside bounds are not seen; samples schedules and faults, does not enumerate them"),
}
NA = {
 "C19": "the grammar a reader accepts is a function of the text alone; simulation varies how the text is delivered, which is C11",
}
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks = []
for p in props:
    if p in CLAIMED:
        t, l = CLAIMED[p][:2]
        note = CLAIMED[p][2] if len(CLAIMED[p]) > 2 else T
        checks.append({"property": p, "quick_cmd": f"bash check.sh {p} quick", "thorough_cmd": f"bash check.sh {p} thorough",
                       "evidence_file": f"evidence/{p}.json", "technique": t, "level": l, "level_note": note})
na = [{"property": p, "reason": NA.get(p, "no check yet: work in progress")} for p in props if p not in CLAIMED]
m = {"version": 1, "setup_cmd": "bash build.sh all",
     "hooks": {"guard": "--cfg splr_sim", "enable": "RUSTFLAGS='--cfg splr_sim' (build.sh builds the harness in /verif/sim with it)", "source_commits": HOOKS},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
