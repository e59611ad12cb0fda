"""Known findings: genuine defects that are recorded (known_findings.txt) rather than repaired."""
import os, re

import vt

FILE = os.path.join(vt.ROOT, "known_findings.txt")
PROBES = {}


def probe(name):
    def deco(f):
        PROBES[name] = f
        return f
    return deco


def listed(prop):
    if not os.path.exists(FILE):
        return
    for line in open(FILE, encoding="utf-8"):
        m = re.match(r"KNOWN-FINDING: property=(\w+) probe=(\S+) (.*)", line)
        if m and m[1] == prop:
            yield m[2], m[3].strip()


def report(run):
    """Prints the listed findings of the property that still fail."""
    for name, what in listed(run.prop):
        if name not in PROBES:
            raise vt.ToolError(f"known_findings.txt names an unknown probe {name}")
        if PROBES[name](run):
            vt.log(f"KNOWN-FINDING: property={run.prop} {what}")
            run.known.append(name)


def bindings(run, name, files, cfg=None, ask="w"):
    """The engine's answer for modules given as source files."""
    d = os.path.join(run.scratch, "known", name)
    for f, text in files.items():
        os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
        with open(os.path.join(d, f), "w", encoding="utf-8") as h:
            h.write(text)
    return vt.run_jobs([{"id": name, "syspath": [d], "cfg": cfg or {}, "calls": [{"op": "module_name", "name": ask}],
                         "want_text": True}], run.scratch, vt.run_env())[name]


TYPES = "class {}:\n    def m(self): pass\ndef f(a: bool, b: float, c: int, d: bytes) -> 'list[int]': pass\n"
# probe -> the worlds (source files) whose bindings do not compile
UNCOMPILABLE = {
    "class-named-like-parameter": [{"w.py": "class p_a: pass\ndef f(a: int): pass\n"}],
    "class-named-like-macro-local": [{"w.py": f"class {n}: pass\n"} for n in ("f", "s", "name", "other", "ob", "err")],
    "class-named-like-rust-type": [{"w.py": TYPES.format(n)} for n in ("bool", "f64", "i64", "u8", "Vec")],
    "class-named-like-variant": [{"w.py": f"class {n}: pass\ndef f(*args, **kwargs): pass\n"} for n in ("Some", "Ok")],
    "sanitised-collision": [{"w.py": "def f(): pass\nglobals()['a b'] = f\nglobals()['a-b'] = lambda: None\n"}],
}


def uncompilable(run):
    """The probes of UNCOMPILABLE that still fail (one build for all of them)."""
    if not hasattr(run, "uncompilable"):
        import runtime
        texts, run.uncompilable = {}, set()
        for probe_name, worlds in UNCOMPILABLE.items():
            for files in worlds:
                n = f"w{len(texts)}"
                got = bindings(run, n, files)
                texts[n] = (probe_name, got.get("text", ""))
                if got["outcome"] != "ok":
                    run.uncompilable.add(probe_name)
        _, _, bad = runtime.build(run.scratch, [(n, t, []) for n, (_, t) in texts.items()], check_only=True, rounds=6)
        run.uncompilable |= {texts[n][0] for n in bad}
    return run.uncompilable


for _name in UNCOMPILABLE:
    PROBES[_name] = lambda run, name=_name: name in uncompilable(run)


def lacks(name, files, *facts):
    """A probe that fails as long as one of the facts is missing from the bindings."""
    def run_probe(run):
        got = bindings(run, name, files)
        return not set(facts) <= set(got.get("facts", []))
    PROBES[name] = run_probe


lacks("reexported-lambda", {"w/__init__.py": "from w.a import f\n", "w/a.py": "f = lambda: 0\n"}, "use|w.f|w.a.f")
lacks("reexport-beside-shadowed-submodule",
      {"w/__init__.py": "from w.x import x, other\n", "w/x.py": "def x(): pass\ndef other(): pass\n"}, "fn|w.x()", "fn|w.other()")
lacks("static-init", {"w.py": "class K:\n    @staticmethod\n    def __init__(a): pass\n    @staticmethod\n    def __call__(a): pass\n"},
      "ctor|w.K::new(p_a)", "method|w.K::call(p_a)")


@probe("deeply-nested-string-annotation")
def _(run):
    text = "def f(a: '" + "list[" * 300 + "int" + "]" * 300 + "'): pass\n"
    return bindings(run, "deep", {"w.py": text})["outcome"] == "crash"
