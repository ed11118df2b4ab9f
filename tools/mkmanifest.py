#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
FMT = ("TLA+ (TLC): programs, gap fillings and configurations generated by the specification are run through the real formatter; "
       "TLC judges each recorded run ")
RULES = "against the layout transducer of the specification (byte for byte, differences laid to constructs)"
REL = "with a relation between texts, tokens, comments and statements stated in the specification"
CLI = ("TLA+ (TLC): directory trees, config files, argument lists and inputs generated by the specification are run through the real program; "
       "each recorded run is validated as a behaviour of the program specification (trace validation)")
T = {p: FMT + REL for p in ("C01", "C02", "C03", "C06", "C07", "C08", "C09", "C23", "C24")}
T["C04"] = FMT + "against the grammar of the specification (every derivation must be accepted)"
T["C05"] = FMT + "against the recogniser of the specification (what it rejects must be refused); and " + CLI
for p in ("C10", "C11", "C12", "C13", "C14", "C15", "C16"):
    T[p] = FMT + RULES
T["C17"] = CLI + "; and " + FMT + RULES
for p in ("C18", "C19", "C20", "C21", "C22"):
    T[p] = CLI
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    checks.append({"property": p, "quick_cmd": "python3 tools/run.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 tools/run.py " + p,
                   "technique": T[p], "level": "model_checking",
                   "level_note": "Bounded: exhaustive derivations within the bounds of the families in spec/Families.tla or spec/CliFamilies.tla (sampled by "
                                 "fingerprint where DESIGN.md says so) plus seeded random ones, each validated against the real code. Trusts TLC, rustc, the "
                                 "driver in harness/, and that the specification says what the property means (see DESIGN.md)."})
json.dump({"version": 1, "setup_cmd": "python3 tools/run.py --build", "checks": checks, "not_applicable": [],
           "notes": "No hooks in /repo. tools/run.py <property> builds from /repo's working tree, lets TLC generate cases, runs them, lets TLC judge them. "
                    "tools/run.py --replay <file> repeats a reported violation."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
