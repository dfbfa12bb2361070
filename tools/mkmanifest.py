#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a harness; the others are listed as not applicable."""
import json, glob, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}   # property -> reason it is not claimed
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA or not glob.glob(f"{R}/harness/{i}.cpp") + glob.glob(f"{R}/harness/{i}_*.cpp"):
        na.append({"property": i, "reason": NA.get(i, "no check built for it yet")}); continue
    checks.append({"property": i, "quick_cmd": f"python3 run.py {i}", "thorough_cmd": f"python3 run.py {i}", "evidence_file": f"evidence/{i}.json",
      "technique": "symbolic execution of the compiled sources (LLVM IR) with Z3; counterexamples replayed natively",
      "level": "model_checking",
      "level_note": "Decides the property for all values within the bounds written in the evidence file, on IR regenerated from the working tree; trusts the clang front end, the executor (cross-checked by native replays on every run), Z3, and the listed stubs of the random generator and output."})
m = {"version": 1, "setup_cmd": "bash setup.sh", "hooks": {"guard": "none", "enable": "no hooks: harnesses include the unmodified sources", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "run.py takes VERIF_TIER from the environment; bounds per entry point are the annotations at the top of harness/*.cpp."}
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
