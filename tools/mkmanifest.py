#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = "deterministic simulation with fault injection: "
A = " Bounded by the runs explored; trusts CPython, numpy and the simulator in /verif/sim."
C = {
 "C01": ("seeded thread schedules (bytecode and line preemption) over shared scenes against each ray traced alone",
         "Seeded search over scenes, orders and interleavings; C extensions (numpy calls) are atomic steps."),
 "C02": ("seeded schedules, aborts, output failures and restarts; detector contents against an exactly-once arrival history",
         "Seeded search; arrivals whose geometry is within the undecided margin of an edge are not judged."),
 "C03": ("seeded cuts, checkpoints, restarts and foreign activity against the uncut trace",
         "Seeded search; travel cuts are compared where the trace is well conditioned."),
 "C04": ("seeded budgets, aborts and re-runs with exact budget accounting as invariants",
         "Seeded search; tolerances of 1e-6 relative; termination is a bound on executed steps."),
 "C05": ("seeded histories with re-listing against a reference that computes every surface ahead",
         "Seeded search; surfaces closer than the conditioning margin of the reference are not judged."),
 "C06": ("exceptions injected at seeded lines and bytecodes, sequential and threaded, against a world without the abort",
         "Seeded search over crash points; an exception strikes between bytecodes of repository code."),
 "C07": ("simulated output stream failing at seeded writes; log and path against the silent trace",
         "Seeded search; stdout is simulated."),
 "C08": ("seeded draws, prints and queries between and during traces, some failing, against the world without them",
         "Seeded search; drawing uses real matplotlib in part of the runs and a stub axes in the others."),
 "C09": ("simulated random stream salted with degenerate draws and failures; invariants on every probe list",
         "Seeded search; evenness is a statistical test at 1e-9 on the real generator."),
 "C10": ("seeded histories refined against an independent optical model",
         "Seeded search; steps outside the well-conditioned domain of the model are skipped, not judged."),
 "C11": ("simulated failing file operations, listing orders, other processes and interrupts over a real scratch tree",
         "Seeded search; faults strike at the interpreter's file-operation boundaries, not inside the kernel."),
 "C13": ("seeded histories and thread schedules around composed bodies of any tree against interval set algebra",
         "Seeded search; crossings closer than 1e-6 and near-tangent lines are not judged."),
 "C14": ("seeded query histories (threads, re-listings, restarts, traces in between) against the set algebra of the bodies",
         "Seeded search; points within 1e-7 of the scene size of a surface are not judged."),
 "C22": ("seeded call histories and thread schedules with in-place edits and aborts against each call alone in a fresh load",
         "Seeded search; that the values are right is C15, C16 and C18 to C21, which are pure and not claimed."),
 "C12": ("simulated short, failing, torn and killed reads and writes over real sketch runs, against each entry alone",
         "Seeded search; process kills only, no power loss; real matplotlib writes the files."),
}
PURE = ("a pure function of its arguments: no schedule, clock, I/O, failure or history can reach it, so simulation would "
        "be plain input sampling under another name")
N = {
 "C15": "rotation and projection helpers are " + PURE + "; that they leave their arguments alone is C08",
 "C16": "image ray fans are " + PURE,
 "C17": "the off-plane grating law is " + PURE + "; in-plane diffraction along traces is C10 (the code implements the in-plane law only)",
 "C18": "number formatting is " + PURE + "; what the trajectory log prints is judged inside C07",
 "C19": "wavelength, energy and colour conversions are " + PURE,
 "C20": "the numerical utilities are " + PURE,
 "C21": "construction checks are " + PURE,
}
m = {"version": 1, "setup_cmd": "python3 check.py --selftest",
     "checks": [{"property": k, "quick_cmd": "python3 check.py %s quick" % k, "thorough_cmd": "python3 check.py %s thorough" % k,
                 "technique": T + v[0], "level": "exploration", "level_note": v[1] + A} for k, v in sorted(C.items())],
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(N.items())],
     "notes": "No hooks were added to /repo: every seam is one Python already has (module loading, tracing, audit events, "
              "files, random stream, stdout). Fixes are recorded in known_findings.txt."}
f = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json")
json.dump(m, open(f, "w"), indent=1)
