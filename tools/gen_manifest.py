#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = "deterministic simulation: "
CHECKS = {
 "C01": (T + "simulated disk with split, short, interrupted and slow reads; every HDU compared with an executable reference model of FITS", "Seeded search over files and deliveries; the comparison covers every card, pixel and cell of each file drawn."),
 "C02": (T + "both opening modes on one simulated disk; headers, metadata and published positions compared with the reference model", "Seeded search over files and deliveries."),
 "C03": (T + "edit histories saved through split and interrupted writes over older files; saved bytes read by an independent strict decoder", "Seeded search over contents, edit histories and write deliveries."),
 "C04": (T + "storage faults (create, write, torn write, full disk, lost at close) at drawn system calls of a save; report, memory and retry checked", "Seeded search over fault kinds and positions; a position is any system call of the save."),
 "C05": (T + "crash cuts at drawn bytes, torn saves and read errors at drawn system calls; the result compared with what survives on the simulated disk", "Seeded search over cut offsets and read faults, with a step budget for termination."),
 "C06": (T + "damaged stored bytes, memory cap and dirty memory under ASan, UBSan and container assertions, with a step budget", "Seeded search over damage to structured files; memory errors are judged by the sanitizers, termination by the step budget."),
 "C07": (T + "histories of edits through many column handles with failing allocations, checked step by step against a reference table, then saved and re-opened", "Seeded search over edit histories and allocation faults."),
 "C08": (T + "histories of one reader over good, damaged and missing files with storage and allocation faults, checked against the file last pointed at", "Seeded search over histories and fault sequences."),
 "C09": (T + "several clients as threads under a seeded scheduler that decides every switch (system calls, allocations, function entries), with faults in some clients; each compared with its solo run", "Seeded search over interleavings; one thread runs at a time, so data races appear as wrong results at switch points, not as torn machine words."),
 "C10": (T + "histories of header queries with failing allocations and copies, each answer compared with a fresh header and the reference model", "Seeded search over headers and query histories."),
 "C11": (T + "histories of card edits, rejected edits and failing allocations, the card compared with a reference card after each step", "Seeded search over edit histories and allocation faults."),
 "C12": (T + "one or all later allocations fail at drawn points of opening, querying, editing, copying and saving; outcome, bystanders, leaks and repetition checked", "Seeded search and sweeps over allocation indices of drawn operations."),
 "C13": (T + "call histories on the file stream over a faulty simulated disk, compared with a byte array with a cursor", "Seeded search over call histories and storage faults."),
 "C14": (T + "printing to sinks that refuse, throw or fill up at drawn bytes, to files on a failing disk and with failing allocations; accepted bytes compared with the expected text", "Seeded search over values, stream settings and fault positions."),
 "C15": (T + "column metadata under dirty memory, copies, replaced and rejected data and failing allocations, compared with the reference header", "Seeded search over tables and histories."),
 "C16": (T + "histories of copies, assignments, moves, swaps, edits and destruction over a pool of HDU lists with handles and failing allocations, each list compared with its own model", "Seeded search over histories and allocation faults."),
 "C17": (T + "histories of calculations by several clients as threads under a seeded scheduler that decides every switch, with failing allocations and dirty memory; each result compared with its definition and with its repetitions", "Seeded search over histories and interleavings; arguments come from small pools, so this does not decide numerical accuracy over all arguments (C30-C37)."),
}
PURE = "A pure function of its arguments: no concurrency, clock, I/O, memory-failure or multi-step history for a simulator to schedule or break. Deciding it needs plain input generation, numerical analysis or proof, which is another technique."
C17 = " (That the result does not depend on history, other threads, memory failures or memory content is C17.)"
NA = {
 "C30": PURE + C17, "C31": PURE + C17, "C32": PURE + C17, "C33": PURE, "C34": PURE + C17,
 "C35": "Plain value types with getters and setters and no shared or stored state: " + PURE[0].lower() + PURE[1:],
 "C36": "Compile-time unit constants. " + PURE, "C37": PURE + C17,
 "C38": PURE + " (Where stored values pass through these conversions under faults, C01, C03, C07 and C11 compare the values.)",
 "C39": PURE + " (Acceptance or rejection inside edit histories is covered by C11.)",
}
checks = []
for k, (tech, note) in CHECKS.items():
    checks.append({"property": k, "quick_cmd": "python3 check.py %s" % k, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % k,
                   "evidence_file": "evidence/%s.json" % k, "technique": tech, "level": "exploration",
                   "level_note": note + " The library is the real code of /repo/include; the kernel's file calls and the allocator's refusals are simulated. Trusts the reference model in sim/model.cpp, gcc, libstdc++ and Boost. Not exhaustive."})
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks in /repo: system calls and operator new/delete are interposed at link time, so the library is compiled as it is. Repairs of genuine defects are the fix: commits listed in known_findings.txt."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
