"""Replays the histories of spec/MC_Routes.tla: command-line tool, build helper, macro (C14)."""
import json, os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor

import conform, render, vt
from conform import Family

LISTS = Family("Lists")


def build_cli():
    vt.cargo(["build", "--offline", "--locked", "--manifest-path", "/repo/Cargo.toml", "-p", "pyo3_bindgen_cli"], "/repo",
             "building the command-line tool", vt.cargo_env(CARGO_TARGET_DIR=os.path.join(vt.BUILD, "cli")))
    return os.path.join(vt.BUILD, "cli", "debug", "pyo3_bindgen")


def arguments(op, names):
    """Spellings of the same command line."""
    m = [["-m", *names], [x for n in names for x in ("--module-name", n)], [x for n in names for x in ("-m", n)]][op["form"] - 1]
    if op["route"] == "stdout":
        return m
    o = [["-o", op["place"]], ["--output", op["place"]], [f"--output={op['place']}"]][op["form"] - 1]
    return o + m if op["form"] == 3 else m + o


OLD = "// an older file\n" * 40000


def like(text):
    """Another text of the same length."""
    return text.replace("p", "q")


def start(d, texts):
    """The directory at the start."""
    os.makedirs(os.path.join(d, "folder"))
    for name, text in (("old.rs", OLD), ("short.rs", "x"), ("file", "a file"), ("target.rs", OLD),
                       ("like.rs", like(texts[1]["cli"])), ("alike.rs", like(texts[1]["raw"]))):
        with open(os.path.join(d, name), "w") as h:
            h.write(text)
    os.symlink("target.rs", os.path.join(d, "link.rs"))


def tree(d):
    """Everything in a directory."""
    out = {}
    for at, dirs, files in os.walk(d):
        for f in files:
            p = os.path.join(at, f)
            rel = os.path.relpath(p, d)
            try:
                out[rel] = open(p, encoding="utf-8", newline="").read()
            except (OSError, UnicodeError) as e:
                out[rel] = repr(e)
            if os.path.islink(p):
                out[rel + " ->"] = os.readlink(p)
        out.update({os.path.relpath(os.path.join(at, x), d) + "/": "" for x in dirs})
    return out


def expected_tree(fs, dirs, texts):
    out = {"folder/": "", "file": "a file", "link.rs ->": "target.rs"}
    for place, what in fs.items():
        if what in ("absent", "blocked"):
            continue
        kind, _, i = what.partition(":")
        out[place] = {"old": OLD, "short": "x", "like cli": like(texts[1]["cli"]), "like raw": like(texts[1]["raw"])}.get(what) if not i else texts[int(i)]["cli" if kind == "cli" else "raw"]
    out["target.rs"] = out["link.rs"]
    for p in dirs:
        parts = p.split("/")
        out.update({"/".join(parts[:k + 1]) + "/": "" for k in range(len(parts))})
    return out


NEEDS = {"new/dir/out.rs": "new/dir", 'with space/"é".rs': "with space"}


def brief(text):
    return None if text is None else f"{len(text)} characters {text[:60]!r}"


def run_history(hist, d, env, cli, lists, texts):
    start(d, texts)
    dirs = set()
    for n, h in enumerate(hist):
        op = h["op"]
        if op["route"] == "macro":
            continue
        names = lists[op["list"]]
        cmd = [vt.vh(), "build", op["place"], *names] if op["route"] == "build" else [cli, *arguments(op, names)]
        what = f"step {n + 1} ({op['route']} {names} {op['place']}): "
        try:
            r = subprocess.run(cmd, cwd=d, env=env, stdin=subprocess.DEVNULL, capture_output=True, timeout=60)
        except subprocess.TimeoutExpired:
            return what + "did not end within a minute"
        if (r.returncode == 0) != h["good"]:
            return what + f"exit status {r.returncode} instead of {'success' if h['good'] else 'failure'} {r.stderr[-300:]}"
        if not h["good"] and not r.stderr.strip():
            return what + "failed without a message"
        if op["route"] != "build":
            out = r.stdout.decode("utf-8", "replace")
            want = texts[op["list"]]["cli"] if op["route"] == "stdout" and h["good"] else ""
            if out != want:
                return what + f"wrote {brief(out)} instead of {brief(want)}"
        if op["route"] == "file" and h["good"] and op["place"] in NEEDS:
            dirs.add(NEEDS[op["place"]])
        want, seen = expected_tree(h["fs"], dirs, texts), tree(d)
        if want != seen:
            diff = sorted(k for k in want.keys() | seen.keys() if want.get(k) != seen.get(k))
            return what + "; ".join(f"{k} has {brief(seen.get(k))} instead of {brief(want.get(k))}" for k in diff)
    return None


def run_macros(run, ops, lists, texts, env):
    """import_python! of each list of one module, next to the bindings themselves."""
    d = tempfile.mkdtemp(prefix="macros-", dir=run.scratch)
    shutil.copytree(os.path.join(vt.ROOT, "macros"), d, dirs_exist_ok=True)
    env = {**env, **{k: v for k, v in vt.cargo_env().items() if k.startswith("CARGO") or k == "PYO3_PYTHON"}, "RUSTC_BOOTSTRAP": "1"}

    def cargo(text, *args):
        with open(os.path.join(d, "src", "lib.rs"), "w") as h:
            h.write(text)
        return subprocess.run(["cargo", *args], cwd=d, env=env, text=True, capture_output=True, timeout=600)

    def module(i):
        return f"pub mod a{i} {{ pyo3_bindgen::import_python!({json.dumps(lists[i][0])}); }}\n"

    def errors(stdout):
        """Lists whose macro failed"""
        out = set()
        for line in stdout.splitlines():
            if line.startswith("{"):
                m = json.loads(line).get("message") or {}
                for s in m.get("spans", []) if m.get("level") == "error" else ():
                    for t in s["text"]:
                        out |= {int(x) for x in re.findall(r"pub mod a(\d+) ", t["text"])}
        return out

    good = [o["op"]["list"] for o in ops if o["good"]]
    fail = [o["op"]["list"] for o in ops if not o["good"]]
    for group, expected in ((fail, set(fail)), (good, set())):
        r = cargo("".join(map(module, group)), "check", "--offline", "--locked", "--lib", "--message-format=json")
        found = errors(r.stdout)
        if r.returncode != 0 and not found:
            raise vt.ToolError("expanding macros failed: " + r.stderr[-3000:])
        for i in sorted(found ^ expected):
            run.violation(f"Routes: import_python! of {lists[i]} " + ("failed" if i in found else "did not fail"),
                          {"family": "Routes", "modules": lists[i]})
        good = [i for i in good if i not in found]
    r = cargo("".join(module(i) + f"pub mod b{i} {{ {texts[i]['raw']} }}\n" for i in good),
              "rustc", "--offline", "--locked", "--lib", "--", "-Zunpretty=expanded")
    if r.returncode != 0:
        raise vt.ToolError("expanding macros failed: " + r.stderr[-3000:])
    src, dst = os.path.join(d, "expanded.rs"), os.path.join(d, "same.json")
    with open(src, "w") as h:
        h.write(r.stdout)
    subprocess.run([vt.vh(), "same", src, dst], check=True, timeout=100)
    pairs = json.load(open(dst))
    if len(pairs) != len(good):
        raise vt.ToolError(f"{len(pairs)} macros instead of {len(good)} in the expanded text")
    for p in pairs:
        if not p["same"]:
            run.violation(f"Routes: import_python! of {lists[int(p['name'][1:])]} gives other bindings",
                          {"family": "Routes", "modules": lists[int(p["name"][1:])], "macro": p["macro"], "direct": p["direct"]})
    shutil.rmtree(d, ignore_errors=True)


def part(run):
    cli = build_cli()
    tlc = run.tlc(vt.Tlc("MC_Lists", run.scratch).must_pass())
    routes = run.tlc(vt.Tlc("MC_Routes", run.scratch, {"Depth": 3} if run.thorough else {}).must_pass())
    lists = {int(c["id"].split("-")[1]): c["calls"][0]["ps"] for c in tlc.cases.values()}
    LISTS.extra = lambda c: {"want_text": True, "want_raw": True}
    jobs, got = conform.run_cases(tlc.cases.values(), run.scratch, LISTS)
    for m in conform.compare(tlc, jobs, got, LISTS):
        run.violation(f"Lists: {m.case['calls']}: " + "; ".join(m.summary()[:4]), {"family": "Lists", "what": m.summary()})
    texts = {i: {"cli": got[f"list-{i}"].get("text"), "raw": got[f"list-{i}"].get("raw")} for i in lists}
    world = os.path.join(run.scratch, "modules")
    render.world(next(iter(tlc.cases.values()))["world"], world)
    env = {**vt.run_env(), "PYTHONPATH": world}
    home = os.path.join(run.scratch, "runs")
    todo = [t["hist"] for t in routes.traces]

    def one(i):
        d = os.path.join(home, str(i))
        os.makedirs(d)
        what = run_history(todo[i], d, env, cli, lists, texts)
        shutil.rmtree(d, ignore_errors=True)
        return i, what

    vt.vh()
    with ThreadPoolExecutor(vt.CORES) as ex:
        for i, what in ex.map(one, range(len(todo))):
            if i in (len(todo) // 2, len(todo) // 3):
                run.sample({"history": [{k: h[k] for k in ("op", "good")} for h in todo[i]]})
            if what:
                run.violation(f"Routes: {what}", {"family": "Routes", "history": todo[i]})
    run_macros(run, [t[0] for t in todo if t[0]["op"]["route"] == "macro"], lists, texts, env)
    run.traces += len(todo) + len(jobs)
    run.parts["Routes"] = {"histories": len(todo), "lists": len(lists), "states": routes.states}
