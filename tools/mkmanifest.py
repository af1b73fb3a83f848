#!/usr/bin/env python3
"""Writes MANIFEST.json: claims every property whose check exists."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEQ = "seeded simulation of operation histories with injected allocation failures, compared step by step with an executable reference model"
IO = "seeded simulation on an in-process file system with injected delivery, read/write/open/close faults and allocation failures"
THR = "seeded thread scheduler (every memory access and atomic is a preemption point) with a happens-before race detector inside the simulation, outcomes compared with a solo run"
T = {
 "C01": (THR, "Samples interleavings; a race between two threads of a run is reported whatever the interleaving because the detector works on happens-before, within the sampled programs."),
 "C02": (THR, "As C01; covers the library calls listed in the evidence, on small objects."),
 "C03": (THR, "As C01, plus reference model of handle histories and live-block accounting; sequential histories run in the same simulator."),
 "C04": (SEQ, "Every observable read is compared after each step; sizes up to 7x7 (now and then 66x66), histories up to 28 steps (now and then 150), values whose arithmetic is exact."),
 "C05": (SEQ, "As C04 for dynamic/fixed vectors and dense/fixed matrices, including ill-sized operands."),
 "C06": ("seeded simulation with systematic allocation-failure injection and block accounting on a simulated heap", "For each sampled scenario the failing allocation is drawn from all allocations the call makes; leaks are judged on the simulated heap."),
 "C07": (SEQ, "Adjacency is recomputed independently from the triangles after each step; grids up to about 6x6 and random triangulations."),
 "C08": (IO, "Each file is loaded undisturbed and under several delivery schedules and compared with the generator's own description."),
 "C09": (IO, "Truncation points and read-error offsets are drawn over all bytes of small files; points a reader cannot notice are exempt (documented in DESIGN.md)."),
 "C10": (IO, "Memory safety judged by AddressSanitizer/UBSan and container assertions inside the simulation, progress by a basic-block budget."),
 "C11": (IO, "Fault offsets drawn over all bytes of small documents."),
 "C12": (IO, "Documents parsed by an independent reader; values compared to the printed precision."),
 "C13": (SEQ, "Sweeps compared with an independent textbook implementation to rounding; systems up to 7 unknowns, now and then 50, in ordinary and scaled units."),
 "C14": (SEQ, "Energy-norm monotonicity, residual claims and finite restarts on generated SPD systems up to 7 unknowns, now and then 40."),
 "C15": (SEQ, "Factors multiplied back and compared to rounding; sequences of factorisations with stale outputs, singular inputs and allocation failures."),
 "C16": (IO, "The real program main runs in the simulator; outputs parsed independently; meshes up to about 12x12."),
 "C17": (THR, "Sequential nesting/throwing histories and concurrent sharing in the same simulator."),
 "C18": (SEQ, "Matrices of order up to 6 with small integer entries, so that every comparison except determinants, norms and Hilbert matrices is exact; the choices Cuthill-McKee's rule leaves open are not prescribed."),
 "C20": (SEQ, "Damage is drawn from the kinds validation looks for; at most three at a time, never two that could cancel out."),
 "C21": (SEQ, "Compared with exact integrals (independent product rule in extended precision) to rounding; meshes up to about 7x7 with orders one and two, reference elements up to three dimensions and third order."),
 "C22": (IO, "Documents of up to about 25 groups and some hundred faces, generated together with what they describe; statements within the grammar the reader documents."),
 "C19": (SEQ, "Compared in extended precision with tolerances scaled by the conditioning of each triangle; values that are stale by the caller's doing are not judged."),
}
NA = {
 "N01": "pure function of its arguments: no concurrency, time, I/O, failure or history for a simulation to vary; what follows from it for meshes is decided by C21",
 "N06": "pure integer functions: no schedule, fault or history involved",
}
checks, na = [], [{"property": k, "reason": v} for k, v in sorted(NA.items())]
for pid in sorted(T):
    if not os.path.exists(os.path.join(H, "checks", pid + ".cpp")):
        na.append({"property": pid, "reason": "check still being built"}); continue
    checks.append({"property": pid, "quick_cmd": "python3 vf.py check %s" % pid, "thorough_cmd": "VERIF_TIER=thorough python3 vf.py check %s" % pid,
                   "evidence_file": "evidence/%s.json" % pid, "technique": T[pid][0], "level": "exploration",
                   "level_note": T[pid][1] + " Evidence is by seeded sampling of executions, not exhaustive; trusted: the simulator (sim/), the compiler and its sanitizers."})
m = {"version": 1, "setup_cmd": "python3 vf.py setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: allocation, file descriptors, clocks, threads and memory accesses are intercepted below the library at link and compile time. All commits in /repo are fixes of genuine defects (known_findings.txt)."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1); print(len(checks), "claimed")
