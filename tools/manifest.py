#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist (checks/cNN.py: TECHNIQUE, LEVEL, NOTE)."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/checks")
NA = {"C26": "The Python front end needs numpy, pandas, jax and the compiled extension module; none of them is installed here, so the code cannot be run and no trace of it can be recorded for a specification to judge.",
      "C27": "The executor walks MLIR operations; MLIR is not installed here, so no such program can be built or run and no trace can be recorded from the real code to bind a specification to.",
      "C28": "The compiler is made of MLIR passes; MLIR is not installed here, so it cannot be built or run and no behaviour of the real code can be compared with a specification."}
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)["id"]
    f = "%s/checks/%s.py" % (V, p.lower())
    if not os.path.exists(f):
        na.append({"property": p, "reason": NA.get(p, "No check has been built for it yet.")})
        continue
    m = importlib.import_module(p.lower())
    checks.append({"property": p, "quick_cmd": "VERIF_TIER=quick python3 checks/run.py " + p,
                   "thorough_cmd": "VERIF_TIER=thorough python3 checks/run.py " + p,
                   "technique": m.TECHNIQUE, "level": getattr(m, "LEVEL", "model_checking"), "level_note": m.NOTE})
json.dump({"version": 1, "setup_cmd": "python3 checks/setup.py", "checks": checks, "not_applicable": na,
           "notes": "TLA+ specifications in spec/, checked with TLC; drivers in drivers/ record traces of the real code, which TLC validates against them. No hooks in /repo are needed: the machinery replaces external libraries (shim/), not project code."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
