"""Runs TLC on the specification and the real engine on the cases that TLC printed."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

import render

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, ".build")
TLA = "/opt/veriftools/tla"
PYTHON = "/usr/bin/python3.12"
CORES = 8
SEED = int(os.environ.get("VERIF_SEED", "1"))


class ToolError(Exception):
    """The check could not do its work (exit status 2: neither a pass nor a violation)."""


def log(*a):
    print(*a, flush=True)


def cargo_env(**extra):
    env = dict(os.environ)
    env.update(CARGO_NET_OFFLINE="true", PYO3_PYTHON=PYTHON, CARGO_TERM_COLOR="never",
               CARGO_TARGET_DIR=os.path.join(BUILD, "target"))
    env.pop("RUSTFLAGS", None)
    env.update(extra)
    return env


def cargo(args, cwd, what, env=None, timeout=800):
    r = subprocess.run(["cargo", *args], cwd=cwd, env=env or cargo_env(), text=True,
                       capture_output=True, timeout=timeout)
    if r.returncode != 0:
        raise ToolError(f"{what} failed:\n{r.stderr[-4000:]}")
    return r


_vh = None


def vh():
    """Path of the harness, built from /repo's working tree."""
    global _vh
    if _vh is None:
        t = time.time()
        cargo(["build", "--offline", "--locked"], os.path.join(ROOT, "harness"), "building the harness")
        _vh = os.path.join(BUILD, "target", "debug", "vh")
        log(f"harness built in {time.time() - t:.0f} s")
    return _vh


class Scratch:
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="vt-")
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


def run_env():
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    return env


# ---- TLC ---------------------------------------------------------------------------------
class Tlc:
    """What TLC printed: cases (lines ##), results (@@), and its statistics."""

    def __init__(self, module, scratch, consts=None, env=None, workers=CORES, timeout=800, heap="8g",
                 invariants=None, extra=()):
        cfg = open(os.path.join(SPEC, module + ".cfg")).read()
        for k, v in (consts or {}).items():
            cfg, n = re.subn(rf"\b{k} = \S+", f"{k} = {v}", cfg)
            if n != 1:
                raise ToolError(f"{module}.cfg has no constant {k}")
        meta = tempfile.mkdtemp(prefix="tlc-", dir=scratch)
        path = os.path.join(meta, module + ".cfg")
        with open(path, "w") as h:
            h.write(cfg)
        t = time.time()
        e = dict(os.environ)
        e.update(env or {})
        out = os.path.join(meta, "out.txt")
        with open(out, "w") as h:
            try:
                subprocess.run(
                    ["java", "-Xss512m", "-XX:+UseParallelGC", f"-Xmx{heap}", f"-Djava.io.tmpdir={meta}",
                     "-cp", f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar", "tlc2.TLC",
                     "-workers", str(workers), "-noGenerateSpecTE", "-metadir", os.path.join(meta, "m"),
                     "-config", path, *extra, module + ".tla"],
                    cwd=SPEC, stdout=h, stderr=subprocess.STDOUT, timeout=timeout, env=e)
            except subprocess.TimeoutExpired:
                raise ToolError(f"TLC ran out of time on {module}")
        self.module, self.wall = module, time.time() - t
        self.cases, self.results, self.traces = {}, {}, []
        self.states = self.generated = 0
        rest, seen = [], set()
        for line in open(out, encoding="utf-8", errors="replace"):
            if line.startswith(('"##', '"@@', '"%%')):
                try:
                    v = json.loads(beyond_ascii(tla_string(line.rstrip("\n"))[2:]))
                except ValueError:
                    raise ToolError(f"unreadable line from TLC: {line[:300]}")
                if line[1] == "#":
                    self.cases[v["id"]] = v
                elif line[1] == "@":
                    r = self.results.setdefault(v["id"], [])
                    if line not in seen:
                        seen.add(line)
                        r.append(v)
                else:
                    self.traces.append(v)
            else:
                rest.append(line)
                m = re.match(r"(\d+) states generated, (\d+) distinct", line)
                if m:
                    self.generated, self.states = int(m[1]), int(m[2])
        self.text = "".join(rest)
        self.ok = "Model checking completed. No error has been found." in self.text
        self.coverage = self.text

    def must_pass(self):
        if not self.ok:
            i = self.text.find("Error:")
            raise ToolError(f"TLC: the specification itself fails on {self.module}:\n{self.text[max(0, i - 600):i + 4000]}")
        return self


def beyond_ascii(s):
    """TLC's strings are ASCII: in them XE9X stands for a letter (here U+00E9), ^ for a character of no identifier."""
    return re.sub("X([0-9A-F]{2,5})X", lambda m: chr(int(m[1], 16)), s).replace("^", "\u2192")


def tla_string(s):
    """Inverse of TLC's printing of a string value."""
    body = s[1:s.rindex('"')]
    return re.sub(r'\\(.)', lambda m: {"n": "\n", "t": "\t", "r": "\r", "f": "\f"}.get(m[1], m[1]), body)


# ---- the engine ----------------------------------------------------------------------------
CFG_KEYS = {"traverse": "traverse_submodules", "preludes": "generate_preludes", "imports": "generate_imports",
            "classes": "generate_classes", "typevars": "generate_type_vars", "functions": "generate_functions",
            "properties": "generate_properties", "docs": "generate_docs", "private": "include_private",
            "deps": "generate_dependencies", "block": "blocklist_names"}


def engine_cfg(c):
    return {CFG_KEYS[k]: v for k, v in c.items()}


def engine_call(c):
    op = c["op"]
    if op == "str":
        return {"op": "module_from_str", "name": c["ps"][0], "code": render.source(c["file"])}
    if op in ("name", "module"):
        return {"op": {"name": "module_name", "module": "module"}[op], "name": c["ps"][0]}
    return {"op": {"names": "module_names", "modules": "modules"}[op], "names": c["ps"]}


def job_of(case, root):
    d = os.path.join(root, re.sub(r"[^A-Za-z0-9_-]", "_", case["id"]))
    os.makedirs(d, exist_ok=True)
    render.world(case["world"], d)
    return {"id": case["id"], "cfg": engine_cfg(case["cfg"]), "syspath": [d], "pre": case.get("pre", []),
            "calls": [engine_call(c) for c in case["calls"]]}


def run_jobs(jobs, scratch, env=None, shards=CORES):
    """Runs jobs on the engine; returns results by id."""
    exe = vh()
    d = tempfile.mkdtemp(prefix="jobs-", dir=scratch)
    jobs = list(jobs)

    def shard(i):
        mine = jobs[i::shards]
        if not mine:
            return []
        src, dst = os.path.join(d, f"in{i}"), os.path.join(d, f"out{i}")
        with open(src, "w") as h:
            for j in mine:
                h.write(json.dumps(j) + "\n")
        with open(os.path.join(d, f"log{i}"), "w") as log_:
            r = subprocess.run([exe, "batch", src, dst], env=env or run_env(), stdin=subprocess.DEVNULL,
                               stdout=log_, stderr=log_, cwd=d, timeout=800)
        if r.returncode != 0:
            raise ToolError(f"vh batch ended with {r.returncode}: " + open(os.path.join(d, f"log{i}")).read()[-2000:])
        return [json.loads(x) for x in open(dst)]

    with ThreadPoolExecutor(shards) as ex:
        return {r["id"]: r for part in ex.map(shard, range(shards)) for r in part}


def outcomes(r):
    o = [s["outcome"] for s in r.get("steps", [])]
    return o + [r["outcome"]]
