#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and scenarios.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
import scenarios as S
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
have = {p for s in S.SCENARIOS for p in s["props"]}
TECH = "bounded symbolic execution of the LLVM IR of the real code (symbolic schedule and inputs), obligations decided by a SAT solver, counterexamples replayed natively"
TECHX = {"C20": TECH + "; floating-point kernel by CBMC"}
SEQ = {"C15", "C16", "C20", "C21", "C22", "C23", "C24", "C26"}
NOTE = "Every obligation is decided by the solver for all inputs and all schedules within the stated bounds (threads, operations, preemption rounds, retry iterations). Trusts: clang's IR, the engine's encoding (its counterexamples and a sample of its witnesses are replayed against the native code), sequentially consistent memory, the environment stubs listed in the evidence."
NOTES = "Every obligation is decided by the solver for all inputs within the stated bounds (operation sequences, sizes, configurations). Trusts: clang's IR, the engine's encoding (counterexamples and a sample of witnesses are replayed natively), the environment stubs listed in the evidence."
m = {"version": 1, "setup_cmd": "bash symx/build.sh",
     "hooks": {"guard": "SYNCH_VERIFY", "enable": "the checks compile /repo's sources with -DSYNCH_VERIFY in some scenarios (see scenarios.py, libdefs); it only shrinks help and patience bounds", "source_commits": ["c45cabb"]},
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py check %s --tier quick" % p["id"], "thorough_cmd": "python3 check.py check %s --tier thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"], "technique": TECHX.get(p["id"], TECH), "level": "model_checking", "level_note": NOTES if p["id"] in SEQ else NOTE} for p in props if p["id"] in have],
     "not_applicable": [{"property": p["id"], "reason": "no check yet"} for p in props if p["id"] not in have]}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1); print(len(m["checks"]), "checks;", "without:", [x["property"] for x in m["not_applicable"]])
