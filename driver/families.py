"""The families of cases (spec/MC_*.tla) and how each is run on the engine."""
import json

from conform import Family


def repro_extra(case):
    return {"watch": case["pre"]}


def repro_also(case, r):
    return ([f"generating again gives other bindings"] if not r.get("again", False) else []) \
        + ([f"generating again gives the bindings in another order"] if not r.get("again_text", False) else []) \
        + ([f"a clone of the builder gives other bindings"] if not r.get("clone", False) else []) \
        + [f"generating changed {x}" for x in r.get("changed", ["?"])]


def repro_text(case, r):
    """Cases of the same key end in the same text, in all environments."""
    return json.dumps([case["world"], case["cfg"], case["calls"]], sort_keys=True), r.get("raw")


FAMILIES = {f.name: f for f in [
    Family("Members"), Family("Names"), Family("Filters"), Family("Params"), Family("Types", deep={"Depth": 3}),
    Family("Classes"), Family("Imports"), Family("Histories"), Family("Config"), Family("Docs"), Family("Preludes"),
    Family("Deps"), Family("Broken"), Family("Strings"), Family("Mixed", deep={"Depth": 3999}),
    Family("Repro", extra=repro_extra, also=repro_also, text=repro_text, envs=({}, {"PYTHONHASHSEED": "1"}, {"PYTHONHASHSEED": "77"})),
    Family("Odd", exact=False),
]}
