#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
T = {
 "C01": ("property-based testing against a double-double reference cascade", "Generated cascades, states and signals; every entry point compared with a reference in higher precision under a running rounding-error bound."),
 "C02": ("stateful property-based testing (generated call histories against a model)", "Generated histories of filter, pull-and-drop, save, restore and switch operations against a per-sample model."),
 "C03": ("property-based testing against the defining equation, solved exactly", "Initial states checked by their defining fixed-point equation with a conditioning-aware tolerance."),
 "C04": ("property-based testing against a reference zero-phase filter", "Reference in higher precision, boundary lengths enumerated, plus metamorphic relations."),
 "C05": ("property-based testing against an index-formula model", "Exact comparison; shapes, modes, axes and pad lengths generated around the boundary."),
 "C06": ("property-based testing against the analytic frequency response", "Responses evaluated in higher precision against the closed form; tolerance follows the conditioning."),
 "C07": ("property-based testing against the analytic frequency response", "As C06, plus counting of ripple extrema. Two known findings are recognised by their exact wrong result."),
 "C08": ("differential property-based testing between output forms", "The three forms are compared at generated complex frequencies with the rounding of each form bounded."),
 "C09": ("property-based testing against the substitution", "Transfer functions compared at generated complex frequencies; two known findings recognised by their exact wrong result."),
 "C10": ("property-based testing against the substitution", "Transfer functions compared at generated z; root locations checked."),
 "C11": ("property-based testing (transfer-function equivalence, exact products)", "Generated conjugate-closed root sets in any order."),
 "C12": ("property-based testing against a validation model", "Requests generated from valid ones by independent faults; acceptance compared with a model and defaults with explicit options."),
 "C13": ("property-based testing against the direct sum", "Direct sums in higher precision; all small length pairs enumerated."),
 "C14": ("metamorphic property-based testing with known harmonics", "Signals synthesised from harmonics; expected samples known in closed form."),
 "C15": ("property-based testing against exact rational least squares", "Coefficients compared with exact rational normal equations for every small window; filter compared sample by sample."),
 "C16": ("property-based testing against definitions in exact or higher precision", "All orders, duplicates and offsets generated; permutations of short sequences enumerated."),
 "C17": ("property-based testing against definitions in higher precision", "Lengths of every residue modulo four through const-generic instances."),
 "C18": ("property-based testing against the definition", "Times near the switching instants are judged by either neighbour."),
 "C19": ("property-based testing against a high-precision series", "Arguments over the whole range and around the interval switch."),
 "C20": ("property-based testing and enumeration against big-integer arithmetic", "Exhaustive for 8-bit types, generated near the representability boundary for the others."),
 "C21": ("property-based testing and enumeration against big-integer arithmetic", "Exhaustive where the result is representable."),
 "C22": ("property-based testing against the definition", "Exact comparison of every entry."),
 "C23": ("fuzzing of call sequences under AddressSanitizer and memcheck", "Arbitrary argument combinations over the public interface in instrumented processes."),
 "C24": ("differential property-based testing of the two builds", "The same generated call is made in the std build and, in another process, in the default build."),
 "C25": ("property-based testing with injected interpreter faults", "The caller runs in a child with a stand-in interpreter; the script is run by Python with recording stubs."),
}
checks = []
for l in open("properties.jsonl"):
    i = json.loads(l)["id"]
    tech, note = T[i]
    checks.append({"property": i, "quick_cmd": f"./run.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i}", "evidence_file": f"evidence/{i}.json",
                   "technique": tech, "level": "exploration",
                   "level_note": note + " Bounded by the generated cases; a violation is shrunk to a replayable case. Trusted: the oracle in harness/src and its stated tolerance."})
m = {"version": 1, "setup_cmd": "./run.sh build", "checks": checks, "not_applicable": [],
     "notes": "No hooks: everything is reached through the public interface. VERIF_SEED selects the seed, VERIF_TIER the depth. run.sh replay FILE re-runs a saved case. /repo carries only fix: commits, listed in known_findings.txt."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
