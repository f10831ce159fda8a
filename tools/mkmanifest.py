#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and tools/harnesses.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from harnesses import H, NOTE, NA
props = [json.loads(x) for x in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in H:
        checks.append(dict(
            property=i, quick_cmd="python3 check.py %s --tier quick" % i,
            thorough_cmd="python3 check.py %s --tier thorough" % i,
            technique="symbolic execution of the compiled code's LLVM IR, decided by z3",
            level="model_checking",
            level_note=NOTE.get(i, "") + "Bounded: every value within the bounds listed in the evidence file; nothing is "
            "claimed outside them. Trusts rustc's lowering to LLVM IR, the executor in /verif/engine (sampled paths are "
            "replayed natively on every run), z3, and the harness's reference model."))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check yet")))
json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
               notes="One driver, /verif/check.py. No hooks in /repo are needed; everything goes through the public API."),
          open(V + "/MANIFEST.json", "w"), indent=1)
