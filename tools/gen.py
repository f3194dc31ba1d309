#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from lib/spec.py and lib/props.py."""
import json, os, sys
sys.dont_write_bytecode = True
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from lib import props, spec
with open(R + "/properties.jsonl", "w") as f:
    for p in spec.PROPERTIES:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
ids = [p["id"] for p in spec.PROPERTIES]
na = {x["property"] for x in props.NOT_APPLICABLE}
assert set(props.PROPS) | na == set(ids) and not (set(props.PROPS) & na), set(props.PROPS) ^ set(ids)
m = {
    "version": 1,
    "setup_cmd": "./vp setup",
    "checks": [
        {
            "property": i,
            "quick_cmd": f"./vp check {i} quick",
            "thorough_cmd": f"./vp check {i} thorough",
            "technique": "path-forking symbolic execution of the rustc LLVM IR of the real code, z3 verdict per path, native replay of counterexamples",
            "level": "model_checking",
            "level_note": props.LEVEL_NOTE + (" " + props.PROPS[i]["note"] if "note" in props.PROPS[i] else ""),
        }
        for i in ids if i in props.PROPS
    ],
    "not_applicable": props.NOT_APPLICABLE,
    "notes": "No hooks in /repo: harness modules are injected into shadow crates that copy /repo's current sources into /verif/.build.",
}
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
print(len(ids), "properties,", len(m["checks"]), "checks")
