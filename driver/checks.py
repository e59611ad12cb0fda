"""The check of each property: which behaviours of the specification are replayed on the engine."""
import copy, json, os, time

import compiles, conform, families, routes, streams, vt


class Run:
    """What one run of a check explored and found."""

    def __init__(self, prop, thorough, scratch):
        self.prop, self.thorough, self.scratch = prop, thorough, scratch
        self.states = self.transitions = self.traces = 0
        self.samples, self.violations, self.parts, self.assumptions = [], [], {}, []
        self.known = []

    def tlc(self, t):
        """Counts a run of TLC."""
        self.states += t.states
        self.transitions += t.generated
        return t

    def violation(self, what, detail):
        self.violations.append((what, detail))

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)


def files_of(case):
    import render
    out = {}
    for n, f in case["world"].items():
        out[n.replace(".", "/") + ("/__init__.py" if f["pkg"] else ".py")] = render.source(f)
    return out


def family(name, only=None, sampled=1, consts=None, deep=None):
    """Replays every behaviour of a family. `only` selects the facts that speak about the property
    (outcomes and complaints always count). `consts` and `deep` replace constants of the family."""

    def part(run):
        fam = copy.copy(families.FAMILIES[name])
        fam.consts, fam.deep = {**fam.consts, **(consts or {})}, {**fam.deep, **(deep or {})}
        tlc, got, bad = conform.check_family(fam, run.scratch, run.thorough)
        run.tlc(tlc)
        n = len(tlc.cases) * len(fam.envs)
        run.traces += n
        run.parts[name] = {"cases": len(tlc.cases), "engine_runs": n, "states": tlc.states,
                           "constants": {**fam.consts, **(fam.deep if run.thorough else {})}}
        ids = sorted(tlc.cases)
        for id in ids[len(ids) // 2:len(ids) // 2 + sampled]:
            run.sample({"case": id, "files": files_of(tlc.cases[id]), "cfg": tlc.cases[id]["cfg"],
                        "calls": tlc.cases[id]["calls"], "facts": sorted(got[id].get("facts", []))[:20]})
        for m in bad:
            if only:
                m.missing = {f for f in m.missing if only(f)}
                m.extra = {f for f in m.extra if only(f)}
            s = m.summary()
            if s:
                run.violation(f"{name}: case {m.case['id']}: " + "; ".join(s[:4]),
                              {"family": name, "case": m.case["id"], "files": files_of(m.case), "pre": m.case["pre"],
                               "cfg": m.job["cfg"], "calls": m.job["calls"], "what": s,
                               "expected": m.expected["outs"], "observed": vt.outcomes(m.observed)})

    return part


def use(name, deep=None):
    """Replays every history of a runtime family on the generated bindings."""

    def part(run):
        import runtime
        tlc, n, bad = runtime.check_runtime("MC_" + name, run.scratch, (deep or {}) if run.thorough else {})
        run.tlc(tlc)
        run.traces += n
        run.parts[name] = {"worlds": len(tlc.cases), "histories": n, "states": tlc.states,
                           "constants": (deep or {}) if run.thorough else {}}
        for id in sorted(tlc.cases)[:2]:
            hist = tlc.results[id][len(tlc.results[id]) // 2]["hist"]
            run.sample({"case": id, "files": files_of(tlc.cases[id]), "steps": [
                {"op": h["op"], "log": h["log"], "res": h["res"]} for h in hist[:4]]})
        for what, detail in bad:
            run.violation(f"{name}: {what}", {"family": name, **detail})

    return part


def kinds(*ks):
    return lambda f: f.split("|")[0] in ks


ITEMS = kinds("mod", "struct", "fn", "ctor", "call", "method", "static", "type", "pyname")
TYPED = kinds("sig", "type")
NAMED = kinds("struct", "fn", "ctor", "call", "method", "static", "type", "pyname", "mod", "dup", "use", "prelude", "preludemod")
USES = kinds("use", "dup", "mod")
DOCS = kinds("doc")

QUICK_BYTES = {name: 10**6 for name in families.FAMILIES} | {"Names": 2 * 10**6, "Params": 10**6, "Types": 3 * 10**6, "Classes": 2 * 10**6,
                                                            "Imports": 2 * 10**6, "Odd": 3 * 10**6, "Mixed": 25 * 10**5}
ALL_BYTES = {name: 10**9 for name in families.FAMILIES}

OUTCOMES = kinds()
PRELUDES = kinds("prelude", "preludemod", "dup")


def mixed(nth, only=None):
    """The pseudo-random worlds number `nth` of the ranges that the properties share out."""
    return family("Mixed", only, consts={"Depth": 350, "From0": 4000 * nth}, deep={"Depth": 3999})


# The first part of each is the one that was written for the property; the others are there because
# their worlds reach the same code from another side.
PARTS = {
    "C01": [family("Members"), family("Names", ITEMS), family("Imports", ITEMS), mixed(0, ITEMS)],
    "C02": [family("Filters"), family("Members", ITEMS), mixed(2, ITEMS)],
    "C03": [compiles.part(QUICK_BYTES, ALL_BYTES)],
    "C04": [use("Calls", {"Depth": 2}), use("Spell", {"Depth": 2}), family("Params")],
    "C05": [use("Access", {"Depth": 5}), use("Spell", {"Depth": 2}), family("Classes", kinds("method", "sig")), family("Members", kinds("fn", "method", "sig"))],
    "C06": [use("Fresh", {"Depth": 3}), use("Calls")],
    "C07": [family("Types", TYPED), family("Strings", TYPED), family("Config", TYPED), family("Members", TYPED), family("Params", TYPED), mixed(1, TYPED)],
    "C08": [family("Imports"), family("Histories", USES), family("Broken", USES), mixed(3, USES)],
    "C09": [family("Histories"), family("Config", ITEMS), mixed(4)],
    "C10": [family("Config"), family("Docs", DOCS), mixed(5)],
    "C11": [streams.part({"Depth": 2})],
    "C12": [family("Odd"), family("Strings", OUTCOMES), family("Names", OUTCOMES), family("Params", OUTCOMES), family("Broken", OUTCOMES),
            family("Types", OUTCOMES), mixed(6, OUTCOMES)],
    "C13": [use("Embed", {"Depth": 4}), family("Histories", kinds("embed")), family("Docs", kinds("embed"))],
    "C14": [routes.part],
    "C15": [family("Docs"), family("Config", DOCS), mixed(7, DOCS)],
    "C16": [family("Repro")],
    "C17": [family("Deps"), mixed(8, ITEMS)],
    "C18": [family("Names"), use("Spell", {"Depth": 2}), family("Preludes", NAMED), mixed(9, NAMED)],
    "C19": [family("Preludes"), family("Config", PRELUDES), family("Names", PRELUDES), family("Filters", PRELUDES), mixed(10, PRELUDES)],
    "C20": [family("Classes"), family("Params", ITEMS), use("Calls")],
    "C21": [use("Values", {"Depth": 2}), use("Access")],
    "C22": [family("Broken"), family("Histories", ITEMS), family("Config", ITEMS), mixed(6)],
}

TECHNIQUES = {
    "C01": "TLA+ specification (Python, Engine) checked with TLC: completeness and soundness of every package of MC_Members/MC_Names/MC_Imports; each behaviour replayed on the engine and its generated items compared; the same for pseudo-random packages in which all constructs meet (MC_Mixed)",
    "C02": "TLC enumerates names, look-alikes, defining modules, kinds of member and configurations (MC_Filters, MC_Members) with the filter rule as invariants; each case replayed on the engine; the same for pseudo-random packages in which all constructs meet (MC_Mixed)",
    "C03": "TLC checks that every generated scope is well formed (distinct names, resolved paths) for all families; the bindings of these behaviours are handed to rustc",
    "C04": "Runtime state machine in TLA+ (caller, interpreter, argument binding); TLC enumerates signatures and calls (MC_Calls, MC_Spell); histories replayed with compiled bindings against Python code that logs its arguments",
    "C05": "Runtime state machine in TLA+; TLC enumerates histories of gets, sets and changes by Python (MC_Access, MC_Spell); replayed with compiled bindings; accessors of MC_Classes/MC_Members compared with the engine",
    "C06": "Runtime state machine in TLA+ with the import system; TLC enumerates package shapes and orders of first use (MC_Fresh, MC_Calls); replayed in fresh processes",
    "C07": "TLA+ specification of annotation terms, spellings and their Rust types (PyTypes); TLC checks agreement and compositionality on all terms to a depth (MC_Types, MC_Strings); each replayed on the engine; the same for pseudo-random packages in which all constructs meet (MC_Mixed)",
    "C08": "TLC enumerates import statements x origins x shadowing (MC_Imports, MC_Histories, MC_Broken) with the re-export rule as invariants; each replayed on the engine; the same for pseudo-random packages in which all constructs meet (MC_Mixed)",
    "C09": "TLC explores all sequences of builder calls (MC_Histories, MC_Config) and checks that the tree depends on the set only; each history replayed on the engine; the same for pseudo-random packages in which all constructs meet (MC_Mixed)",
    "C10": "TLC enumerates all combinations of switches (MC_Config, MC_Docs), invariants relate them to the full bindings; each replayed on the engine; the same for pseudo-random packages in which all constructs meet (MC_Mixed)",
    "C11": "TLA+ state machine of threads muting the streams: a fine-grained model (MC_Mute) and one of observable schedules (MC_Streams), whose schedules TLC enumerates and gates enforce on real threads of the engine",
    "C12": "TLA+ specification of outcomes; TLC enumerates odd modules and malformed annotations (MC_Odd, MC_Strings, MC_Names, MC_Params, MC_Broken, MC_Types; pseudo-random packages in MC_Mixed); each replayed in a forked process, a panic, crash or hang is no outcome of the specification",
    "C13": "Runtime state machine in TLA+ with embedding; TLC enumerates texts, names and histories (MC_Embed); replayed with compiled bindings in an interpreter that cannot find the modules; embedded text compared",
    "C14": "TLA+ state machine of a directory and the deliveries to it (MC_Routes); TLC enumerates histories; replayed with the real CLI, build helper and macro; directories compared after each step",
    "C15": "TLC enumerates docstrings x kinds of item (MC_Docs, MC_Config) with carried-over lines as invariants; each replayed on the engine and doc attributes compared; the same for pseudo-random packages in which all constructs meet (MC_Mixed)",
    "C16": "TLC enumerates histories of unrelated work before generation (MC_Repro); each replayed under three hash seeds, texts compared token by token, parsed objects compared before and after",
    "C17": "TLC enumerates import graphs x configurations x requests (MC_Deps) with reachability as invariants; each replayed on the engine; the same for pseudo-random packages in which all constructs meet (MC_Mixed)",
    "C18": "TLA+ specification of names (Lex); TLC enumerates names x kinds x clashes (MC_Names, MC_Spell, MC_Preludes); replayed on the engine and, by their Python names, at run time; the same for pseudo-random packages in which all constructs meet (MC_Mixed)",
    "C19": "TLC enumerates __all__ lists x members x clashes x configurations (MC_Preludes, MC_Config, MC_Names, MC_Filters); each replayed on the engine; the same for pseudo-random packages in which all constructs meet (MC_Mixed)",
    "C20": "TLC enumerates classes (members, parameter lists, bases, overriding; MC_Classes, MC_Params, MC_Calls) with the calling convention as invariants; replayed on the engine and at run time",
    "C21": "Runtime state machine in TLA+ with conversions of values; TLC enumerates annotations x boundary values x direction (MC_Values, MC_Access); replayed with compiled bindings, values logged on both sides",
    "C22": "TLC enumerates failures x positions in the package tree (MC_Broken, MC_Histories, MC_Config) and checks equality with the world without the failing file; each replayed on the engine; the same for pseudo-random packages in which all constructs meet (MC_Mixed)",
}

ASSUMPTIONS = [
    "the specification's model of Python's import system and object attributes (spec/Python.tla), bounded to the worlds listed in coverage.parts",
    "the projection of generated code onto facts (harness/src/project.rs) and the rendering of worlds as source files (driver/render.py)",
    "TLC 1.8.0, CPython 3.12",
]


def execute(prop, thorough):
    t = time.time()
    with vt.Scratch() as scratch:
        run = Run(prop, thorough, scratch)
        vt.vh()
        for part in PARTS[prop]:
            part(run)
        import known
        known.report(run)
    evidence = {
        "property": prop, "tier": "thorough" if thorough else "quick", "seed": vt.SEED, "level": "model_checking",
        "coverage": {"states": run.states, "transitions": run.transitions,
                     "traces_validated_against_impl": run.traces, "samples": run.samples, "parts": run.parts},
        "assumptions": ASSUMPTIONS + run.assumptions,
        "wall_s": round(time.time() - t, 1), "violations": len(run.violations),
    }
    os.makedirs(os.path.join(vt.ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(vt.ROOT, "evidence", prop + ".json"), "w") as h:
        json.dump(evidence, h, indent=1, ensure_ascii=False)
        h.write("\n")
    return run


def write_replays(run):
    """One VIOLATION line for each of the first few."""
    d = os.path.join(vt.ROOT, ".work", "replay")
    os.makedirs(d, exist_ok=True)
    for i, (what, detail) in enumerate(run.violations[:5]):
        path = os.path.join(d, f"{run.prop}-{i + 1}.json")
        with open(path, "w") as h:
            json.dump({"property": run.prop, "violation": what, **detail}, h, indent=1, ensure_ascii=False, default=str)
        vt.log(f"# {what[:600]}")
        vt.log(f"VIOLATION property={run.prop} replay={path}")
    if len(run.violations) > 5:
        vt.log(f"# and {len(run.violations) - 5} more")
