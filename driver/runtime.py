"""Replays histories of the runtime specification (spec/Runtime.tla) on generated bindings."""
import json, os, re, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor

import render, vt

RUST_KEYWORDS = set("""as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub
ref return self Self static struct super trait true type unsafe use where while async await dyn abstract become box do
final macro override priv typeof unsized virtual yield try gen union auto macro_rules raw safe""".split())
RAW = RUST_KEYWORDS - set("union auto macro_rules raw safe gen self Self super crate".split())


def ident(n):
    return "r#" + n if n in RAW else n


def rpath(p):
    return "::".join(ident(x) for x in p.split("."))


# ---- values -----------------------------------------------------------------------------------
def pyexpr(v):
    k, xs = v["v"], v["xs"]
    if k == "obj":
        return f"o{v['i']}"
    if k == "list":
        return "[" + ", ".join(map(pyexpr, xs)) + "]"
    if k == "tuple":
        return "(" + "".join(pyexpr(x) + ", " for x in xs) + ")"
    if k in ("set", "frozenset"):
        return f"{k}([" + ", ".join(map(pyexpr, xs)) + "])"
    if k == "dict":
        return "{" + ", ".join(f"{pyexpr(a)}: {pyexpr(b)}" for a, b in zip(xs[::2], xs[1::2])) + "}"
    if k == "float":
        return f"float({v['s']!r})"
    if k in ("bytes", "bytearray"):
        return f"{k}([" + ", ".join(map(pyexpr, xs)) + "])"
    return re.sub(r"\bPosixPath\(", "pathlib.PosixPath(", re.sub(r"\b(IPv[46]Address)\(", r"ipaddress.\1(", v["s"]))


def rust_str(s):
    return '"' + "".join(c if c.isascii() and c.isprintable() and c not in '"\\' else "\\u{%x}" % ord(c) for c in s) + '"'


def split_args(t):
    out, depth, cur = [], 0, ""
    for ch in t:
        if ch in "<([":
            depth += 1
        elif ch in ">)]":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    return out + ([cur] if cur else [])


NATIVE = {"i64": "i64", "f64": "f64", "bool": "bool", "u8": "u8", "String": "String", "PathBuf": "std::path::PathBuf",
          "IpAddr": "std::net::IpAddr"}


class Skip(Exception):
    """The signature does not take such a value."""


def rust_type(t, w):
    """Rust text of a type in the normal form of the harness."""
    if t in NATIVE:
        return NATIVE[t]
    if t == "Any":
        return "Bound<'py, PyAny>"
    if t.startswith("@"):
        return f"Bound<'py, {w}::{rpath(t[1:])}>"
    if t.startswith("("):
        return "(" + ", ".join(rust_type(x, w) for x in split_args(t[1:-1])) + ")"
    m = re.fullmatch(r"(Vec|Option|HashMap|HashSet)<(.*)>", t)
    if m:
        c = {"HashMap": "std::collections::HashMap", "HashSet": "std::collections::HashSet"}.get(m[1], m[1])
        return f"{c}<" + ", ".join(rust_type(x, w) for x in split_args(m[2])) + ">"
    if re.fullmatch(r"Py\w+", t):
        return f"Bound<'py, {t}>"
    raise Skip(f"type {t}")


def owned(t, v, w):
    """Rust expression of type t with value v."""
    k = v["v"]
    if t == "Option" or t.startswith("Option<"):
        return "None" if k in ("None", "absent") else f"Some({owned(t[7:-1], v, w)})"
    if t == "i64":
        if k != "int":
            raise Skip(f"{k} as i64")
        return "i64::MIN" if v["s"] == str(-2**63) else v["s"] + "i64"
    if t == "u8":
        return v["s"] + "u8"
    if t == "f64":
        f = eval(v["s"], {"inf": float("inf"), "nan": float("nan")})
        return f"f64::from_bits({int.from_bytes(__import__('struct').pack('>d', f), 'big')}u64)"
    if t == "bool":
        return v["s"].lower()
    if t == "String":
        return rust_str(eval(v["s"])) + ".to_string()"
    if t == "PathBuf":
        return f"std::path::PathBuf::from({rust_str(path_of(v))})"
    if t == "IpAddr":
        return f"\"{v['s'].split(chr(39))[1]}\".parse::<std::net::IpAddr>().unwrap()"
    m = re.fullmatch(r"(Vec|HashSet|HashMap)<(.*)>", t)
    if m and m[1] == "Vec":
        return f"Vec::<{rust_type(m[2], w)}>::from([" + ", ".join(owned(m[2], x, w) for x in v["xs"]) + "])"
    if m and m[1] == "HashSet":
        return f"<{rust_type(t, w)}>::from([" + ", ".join(owned(m[2], x, w) for x in v["xs"]) + "])"
    if m:
        a, b = split_args(m[2])
        return f"<{rust_type(t, w)}>::from([" + ", ".join(
            f"({owned(a, x, w)}, {owned(b, y, w)})" for x, y in zip(v["xs"][::2], v["xs"][1::2])) + "])"
    if t.startswith("("):
        return "(" + "".join(owned(a, x, w) + ", " for a, x in zip(split_args(t[1:-1]), v["xs"])) + ")"
    if k == "obj":
        o = f"cx.objs[{v['i'] - 1}].bind(py).clone()"
    else:
        o = f"ev_with(py, &cx.objs, {rust_str(pyexpr(v))})?"
    if t == "Any":
        return o
    if t.startswith("@"):
        return f"unsafe {{ {o}.downcast_into_unchecked::<{w}::{rpath(t[1:])}>() }}"
    if re.fullmatch(r"Py\w+", t):
        return f"unsafe {{ {o}.downcast_into_unchecked::<{t}>() }}"
    raise Skip(f"{k} as {t}")


def path_of(v):
    return eval(v["s"], {"PosixPath": str})


def argument(t, v, w, i):
    """(statements, expression, Python objects to watch) for an argument of type t."""
    x = f"a{i}"
    if t.startswith("Option<impl"):
        if v["v"] == "absent":
            return [], f"None::<&Bound<'_, PyDict>>", []
        return [f"let {x} = {owned('PyDict', v, w)};"], f"Some(&{x})", [x]
    if t == "Option<PyDict>" and v["v"] == "dict":
        return [f"let {x} = {owned('PyDict', v, w)};"], f"Some({x}.clone())", [x]
    if t == "impl PyDict":
        return [f"let {x} = {owned('PyDict', v, w)};"], f"&{x}", [x]
    if t == "impl PyTuple":
        return [f"let {x} = {owned('PyTuple', v, w)};"], f"&{x}", [x]
    if t == "impl Any":
        return [f"let {x} = {owned('Any', v, w)};"], f"&{x}", [x]
    if t == "&str":
        return [], rust_str(eval(v["s"])), []
    if t == "&Path":
        return [], f"std::path::Path::new({rust_str(path_of(v))})", []
    if t.startswith("&["):
        return [f"let {x} = {owned('Vec<' + t[2:-1] + '>', v, w)};"], f"&{x}", []
    if t.startswith("&"):
        watched = [x] if re.match(r"Py|@", t[1:]) else []
        return [f"let {x} = {owned(t[1:], v, w)};"], f"&{x}", watched
    return [f"let {x} = {owned(t, v, w)};"], x, []


# ---- steps ------------------------------------------------------------------------------------
KIND = {"fn": "fn", "get": "fn", "set": "fn", "new": "ctor", "static": "static", "method": "method",
        "objget": "method", "objset": "method"}


def rust_path(p):
    """Path of the module p in the bindings"""
    return ".".join(x if x and not x[0].isdigit() and re.fullmatch(r"\w+", x) and x not in ("crate", "self", "super", "Self", "_")
                    else "m_" + re.sub(r"\W", "_", x) for x in p.split("."))


class Missing(Exception):
    """There is no such binding."""


def step_body(op, fns, w):
    """Rust statements of a step; the last one is the result."""
    if op["op"] == "poke":
        return f"poke(py, {rust_str(op['m'])}, {rust_str(op['c'])}, {rust_str(op['n'])}, {rust_str(pyexpr(op['args'][0]))})"
    if op["op"] == "py":
        return f"pystep(py, {rust_str(op['n'])})"
    if op["op"] == "embed":
        return f"{w}::{rpath(op['rm'])}::pyo3_embed_python_source_code(py)?; Ok(\"()\".into())"
    kind = KIND[op["op"]]
    owner = op["rm"] + ("." + op["rc"] if op["rc"] else "")
    found = [f for f in fns if f["kind"] == kind and f["owner"] == owner and f["name"] == op["r"]]
    if op["lm"] != op["rm"] and not found:
        found = [f for f in fns if f["kind"] == kind and f["owner"] == op["lm"] and f["name"] == op["lr"]]
    if not found:
        raise Missing(f"there is no {kind} {op['r']} of {owner}")
    f = found[0]
    if len(f["types"]) != len(op["args"]):
        raise Missing(f"{owner} {op['r']} takes {f['params']} instead of {len(op['args'])} arguments")
    lines, exprs, watch = [], [], []
    for i, (t, v) in enumerate(zip(f["types"], op["args"])):
        l, e, o = argument(t, v, w, i)
        lines += l
        exprs.append(e)
        watch += o
    watched = ", ".join(f"{x}.as_any()" for x in watch)
    lines.append(f"let watched = Args::of(&[{watched}]);")
    name = ident(op["r"])
    if kind == "fn":
        call = f"{w}::{rpath(op['rm'])}::{name}({', '.join(['py'] + exprs)})"
    elif kind in ("ctor", "static"):
        call = f"{w}::{rpath(owner)}::{name}({', '.join(['py'] + exprs)})"
    else:
        lines.append(f"let me = cx.objs[{op['obj'] - 1}].bind(py).clone();")
        lines.append(f"let me = unsafe {{ me.downcast_unchecked::<{w}::{rpath(owner)}>() }};")
        call = f"{w}::{rpath(f['trait'])}::{name}({', '.join(['me'] + exprs)})"
    lines.append(f"let r = {call}?;")
    lines.append("let text = r.show(py) + &watched.changes();")
    if kind == "ctor":
        lines.append("cx.objs.push(r.into_any().unbind());")
    lines.append("Ok(text)")
    return "\n    ".join(lines)


def crate(scratch, worlds):
    """Writes the crate; worlds: [(name, bindings text, [step bodies])]. Returns its path and the binaries."""
    d = tempfile.mkdtemp(prefix="rt-", dir=scratch)
    src = os.path.join(vt.ROOT, "runtime")
    for f in ("Cargo.toml", "Cargo.lock"):
        shutil.copy(os.path.join(src, f), d)
    os.makedirs(os.path.join(d, "src", "bin"))
    shutil.copy(os.path.join(src, "src", "support.rs"), os.path.join(d, "src"))
    weights = [0] * min(vt.CORES, len(worlds))
    shards = [[] for _ in weights]
    for w in sorted(worlds, key=lambda w: -len(w[1]) - 200 * len(w[2])):
        i = weights.index(min(weights))
        shards[i].append(w)
        weights[i] += len(w[1]) + 200 * len(w[2])
    where = {}
    for i, mine in enumerate(shards):
        main, n = ['#![allow(warnings)]\n#![recursion_limit = "1024"]', '#[path = "../support.rs"]\nmod support;\nuse support::*;'], 0
        table = []
        for name, text, steps in mine:
            with open(os.path.join(d, "src", f"{name}.rs"), "w") as h:
                h.write(text)
            main.append(f'#[path = "../{name}.rs"]\nmod {name};')
            with open(os.path.join(d, "src", f"s_{name}.rs"), "w") as h:
                h.write(f"use super::{name};\nuse super::support::*;\n")
                for k, body in enumerate(steps):
                    h.write(f"pub fn s{k}<'py>(py: Python<'py>, cx: &mut Cx) -> PyResult<String> {{\n    {body}\n}}\n")
            main.append(f'#[path = "../s_{name}.rs"]\nmod s_{name};')
            where[name] = (i, len(table))
            table += [f"s_{name}::s{k}" for k in range(len(steps))]
        main.append("fn main() {\n    run_scripts(&[" + ", ".join(table) + "]);\n}")
        with open(os.path.join(d, "src", "bin", f"b{i}.rs"), "w") as h:
            h.write("\n".join(main) + "\n")
    return d, where


def compile_errors(stdout):
    """name of world -> first message, from cargo's JSON."""
    bad = {}

    def files(spans):
        for s in spans:
            yield s["file_name"]
            e = s.get("expansion")
            while e:
                yield e["span"]["file_name"]
                e = e["span"].get("expansion")

    for line in stdout.splitlines():
        if not line.startswith("{"):
            continue
        m = json.loads(line)
        if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
            continue
        msg = m["message"]
        names = [re.match(r".*?src/(?:bin/\.\./)?(?:\.\./)?(s_)?(w\d+)\.rs$", f) for f in files(msg["spans"])]
        names = [n for n in names if n]
        for n in names[:1]:
            bad.setdefault(n[2], (bool(n[1]), msg.get("rendered") or msg["message"]))
    return bad


def build(scratch, worlds, check_only=False, rounds=1):
    """Builds the worlds; returns (crate, where, {world: (in a step, message)} that do not compile).
    The compiler may show further worlds only after those that do not compile are left out."""
    bad = {}
    for _ in range(rounds):
        left = [w for w in worlds if w[0] not in bad]
        if not left:
            return None, {}, bad
        d, where = crate(scratch, left)
        env = vt.cargo_env(CARGO_TARGET_DIR=os.path.join(vt.BUILD, "target"))
        r = subprocess.run(["cargo", "check" if check_only else "build", "--offline", "--locked", "--keep-going", "--bins",
                            "--message-format=json"], cwd=d, env=env, text=True, capture_output=True, timeout=800)
        new = compile_errors(r.stdout)
        if r.returncode == 0:
            return d, where, bad
        if not new:
            raise vt.ToolError("building the bindings failed: " + r.stderr[-3000:])
        bad.update(new)
    return None, {}, bad


def run_scripts(d, scripts, scratch):
    """scripts: {binary: [script]} -> results by id."""
    jobs = []
    for b, ss in scripts.items():
        n = max(1, min(vt.CORES, len(ss) // 20 + 1))
        jobs += [(b, k, ss[k::n]) for k in range(n)]

    def run(job):
        b, k, ss = job
        base = os.path.join(d, f"run-{b}-{k}")
        with open(base + ".in", "w") as h:
            h.writelines(json.dumps(s) + "\n" for s in ss)
        with open(base + ".log", "w") as log:
            r = subprocess.run([os.path.join(vt.BUILD, "target", "debug", f"b{b}"), base + ".in", base + ".out"],
                               env=vt.run_env(), stdin=subprocess.DEVNULL, stdout=log, stderr=log, cwd=d, timeout=800)
        if r.returncode != 0:
            raise vt.ToolError(f"running scripts ended with {r.returncode}: " + open(base + ".log").read()[-2000:])
        return [json.loads(x) for x in open(base + ".out")]

    with ThreadPoolExecutor(vt.CORES) as ex:
        return {r["id"]: r for part in ex.map(run, jobs) for r in part}


def normal(entry):
    """A log entry or expected one as (name, sorted arguments)."""
    f, a = (entry["f"], entry["a"]) if isinstance(entry, dict) else entry
    return f, sorted(a.items()) if isinstance(a, dict) else []


def check_runtime(module, scratch, consts=None, job_extra=None, env=None):
    """Returns (tlc, number of histories, [(what, detail)])."""
    tlc = vt.Tlc(module, scratch, consts or {}, env=env).must_pass()
    root = tempfile.mkdtemp(prefix="worlds-", dir=scratch)
    bad, jobs, dirs = [], {}, {}
    for id, c in tlc.cases.items():
        case = {"id": id, "world": {} if c["nopath"] else c["world"], "cfg": {}, "calls": c["calls"]}
        j = vt.job_of(case, root)
        dirs[id] = j["syspath"][0]
        shutil.copy(os.path.join(vt.ROOT, "driver", "pylib", "vlog.py"), dirs[id])
        j["want_text"] = True
        if job_extra:
            j.update(job_extra(c))
        jobs[id] = j
    t = time.time()
    got = vt.run_jobs(jobs.values(), scratch)
    worlds, number, unable = [], {}, {}
    for k, (id, c) in enumerate(sorted(tlc.cases.items())):
        r = got[id]
        detail = {"case": id, "files": {n: render.source(f) for n, f in c["world"].items()}}
        if r["outcome"] != "ok" or any(s["outcome"] != "ok" for s in r["steps"]):
            bad.append((f"{id}: no bindings: {vt.outcomes(r)} {r.get('msg', '')}", detail))
            continue
        name, steps, index = f"w{k}", [], {}
        given = {rust_path(x["name"]): x["code"] for x in jobs[id]["calls"] if x["op"] == "module_from_str"}
        carried = {f["owner"]: f["lits"] for f in r["fns"] if f["kind"] == "embed"}
        for m in sorted(given.keys() | carried.keys()):
            if [given.get(m)] != [x for x in carried.get(m, [None])][:1]:
                bad.append((f"{id}: the source {given.get(m)!r} of {m} is embedded as {carried.get(m)!r}", detail))
        for res in tlc.results[id]:
            for h in res["hist"]:
                key = json.dumps(h["op"], sort_keys=True)
                if key in index:
                    continue
                try:
                    index[key] = len(steps)
                    steps.append(step_body(h["op"], r["fns"], name))
                except Missing as e:
                    del index[key]
                    if (id, key) not in unable:
                        unable[id, key] = str(e)
                        bad.append((f"{id}: {e}", {**detail, "step": h["op"]}))
                except (Skip, TypeError, ValueError, IndexError, KeyError, NameError, SyntaxError, AttributeError) as e:
                    # the value and the type of the bindings do not go together
                    del index[key]
                    unable[id, key] = str(e)
                    bad.append((f"{id}: {h['op']['op']} {h['op']['m']} {h['op']['n']} cannot take the value: {e}",
                                {**detail, "step": h["op"]}))
        worlds.append((name, r["text"], steps))
        number[id] = (name, index)
    d, where, failed = build(scratch, worlds)
    built = time.time() - t
    scripts, expect = {}, {}
    for id, (name, index) in number.items():
        if name in failed:
            c = tlc.cases[id]
            bad.append((f"{id}: {'calls of the bindings do' if failed[name][0] else 'the bindings do'} not compile: {failed[name][1][:700]}",
                        {"case": id, "files": {n: render.source(f) for n, f in c["world"].items()}, "error": failed[name][1]}))
            continue
        if name not in where:
            continue
        b, base = where[name]
        for k, res in enumerate(tlc.results[id]):
            keys = [json.dumps(h["op"], sort_keys=True) for h in res["hist"]]
            if any(key not in index for key in keys):
                continue
            sid = f"{id}/{k}"
            scripts.setdefault(b, []).append({"id": sid, "syspath": [] if tlc.cases[id]["nopath"] else [dirs[id]] ,
                                              "steps": [base + index[key] for key in keys]})
            if tlc.cases[id]["nopath"]:
                lib = os.path.join(root, "lib")
                os.makedirs(lib, exist_ok=True)
                shutil.copy(os.path.join(vt.ROOT, "driver", "pylib", "vlog.py"), lib)
                scripts[b][-1]["syspath"] = [lib]
            expect[sid] = (id, res["hist"])
    results = run_scripts(d, scripts, scratch) if scripts else {}
    for sid, (id, hist) in expect.items():
        r = results[sid]
        c = tlc.cases[id]
        detail = {"case": sid, "files": {n: render.source(f) for n, f in c["world"].items()}, "steps": hist, "seen": r.get("seen")}
        if "seen" not in r:
            bad.append((f"{sid}: the process ended with status {r.get('crash')}", detail))
            continue
        for i, (h, s) in enumerate(zip(hist, r["seen"])):
            op = h["op"]
            want, seen = [normal(e) for e in h["log"]], s["log"]
            seen = [normal(e) for e in seen] if isinstance(seen, list) else seen
            res = "err missing" if s["res"] in ("err ModuleNotFoundError", "err AttributeError") else s["res"]
            if want != seen or h["res"] != res:
                bad.append((f"{sid}: step {i + 1} ({op['op']} {op['m']} {op['c']} {op['n']} {[pyexpr(a) if a['v'] not in ('absent', 'obj') else a['v'] for a in op['args']]}): "
                            f"expected {h['res']} {want}, got {s['res']} {seen}", detail))
                break
    shutil.rmtree(root, ignore_errors=True)
    if d:
        shutil.rmtree(d, ignore_errors=True)
    tlc.built = built
    return tlc, len(expect), bad
