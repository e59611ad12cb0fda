#!/usr/bin/env python3
"""Rewrites MANIFEST.json from the checks that exist."""
import json, os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "driver"))
import checks

NOTES = {
    "C03": "Quick: a seeded choice of the bindings of every family (about 20 MB of Rust) is compiled; thorough: every distinct text. ",
    "C12": "Modules outside of the modelled Python are opaque texts: for them the outcome and the other members are decided. ",
    "C16": "Unrelated work is imports and bindings of modules of the worlds and a few standard ones. ",
}
GENERIC = ("Exhaustive within the bounds of the named families (coverage.parts of the evidence): TLC explores every behaviour of the "
           "specification for every case, checks the property as invariants of the model, and the real code must end each of these "
           "behaviours as the specification does. MC_Mixed, where it is a part, draws pseudo-random worlds. Trusts the model of Python's import system, the projection of generated code and TLC.")
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
out = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": [], "not_applicable": []}
for p in props:
    id = p["id"]
    if id in checks.PARTS:
        out["checks"].append({
            "property": id, "quick_cmd": f"python3 bin/check.py {id}", "thorough_cmd": f"python3 bin/check.py {id} --thorough",
            "technique": checks.TECHNIQUES.get(id, "TLA+ specification checked with TLC; its behaviours replayed on the engine"),
            "level": "model_checking", "level_note": NOTES.get(id, "") + GENERIC})
    else:
        out["not_applicable"].append({"property": id, "reason": "check not built yet"})
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as h:
    json.dump(out, h, indent=1)
    h.write("\n")
