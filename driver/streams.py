"""Replays the schedules of spec/MC_Streams.tla on threads that use the engine."""
import itertools, json, os, shutil, tempfile

import vt


def module(fail, swap):
    return ("import vgate\n"
            f"vgate.at('i', {list(swap)!r})\n"
            + ("raise RuntimeError('broken module')\n" if fail == "import" else "")
            + f"class K(metaclass=vgate.once('p')):\n    fail = {fail == 'parse'}\n")


def call(c, t, k, root):
    """The job of a call; writes its modules to `root`."""
    name = f"m{t}{k}"
    text = module(c["fail"], c["swap"])
    cfg = {"suppress_python_stdout": "out" in c["mute"], "suppress_python_stderr": "err" in c["mute"]}
    if c["op"] == "str":
        return {"op": "module_from_str", "name": name, "code": text, "cfg": cfg}
    if c["op"] == "parent":
        os.makedirs(os.path.join(root, f"d{t}{k}"))
        with open(os.path.join(root, f"d{t}{k}", "__init__.py"), "w") as h:
            h.write(text)
        return {"op": "module_from_str", "name": f"d{t}{k}.sub", "code": "def f(): pass\n", "cfg": cfg}
    if c["op"] in ("deps", "claim"):
        with open(os.path.join(root, f"d{t}{k}.py"), "w") as h:
            h.write(text)
        text = (f"from d{t}{k} import K\n" if c["op"] == "deps" else
                f"class C:\n    pass\nC.__module__ = 'd{t}{k}'\n")
        cfg["generate_dependencies"] = True
    with open(os.path.join(root, name + ".py"), "w") as h:
        h.write(text)
    return {"op": "module" if c["op"] == "module" else "module_name", "name": name, "cfg": cfg}


def part(deep):
    def run_part(run):
        mute = run.tlc(vt.Tlc("MC_Mute", run.scratch, {"Threads": 3, "Rounds": 2} if run.thorough else {}).must_pass())
        tlc = run.tlc(vt.Tlc("MC_Streams", run.scratch, deep if run.thorough else {}).must_pass())
        root = tempfile.mkdtemp(prefix="worlds-", dir=run.scratch)
        shutil.copy(os.path.join(vt.ROOT, "driver", "pylib", "vgate.py"), root)
        dirs, jobs = {}, {}
        for i, tr in enumerate(tlc.traces):
            key = json.dumps(tr["plan"], sort_keys=True)
            if key not in dirs:
                d = os.path.join(root, f"p{len(dirs)}")
                os.makedirs(d)
                dirs[key] = d, [[call(c, t + 1, k + 1, d) for k, c in enumerate(cs)] for t, cs in enumerate(tr["plan"])]
            d, plan = dirs[key]
            jobs[i] = {"id": str(i), "syspath": [d, root], "plan": plan, "first": tr["first"],
                       "schedule": [h["t"] for h in tr["hist"]]}
        got = vt.run_jobs(jobs.values(), run.scratch)
        run.traces += len(jobs)
        run.parts["Streams"] = {"plans": len(dirs), "schedules": len(jobs), "states": tlc.states,
                                "fine_grained_states": mute.states}
        for i, tr in enumerate(tlc.traces):
            r = got[str(i)]
            if i in (len(tlc.traces) // 3, len(tlc.traces) // 2):
                run.sample({"plan": tr["plan"], "schedule": jobs[i]["schedule"], "hist": r.get("hist")})
            what = wrong(tr["hist"], r)
            if what:
                run.violation(f"Streams: {json.dumps(tr['plan'])} first {tr['first']}: {what}",
                              {"family": "Streams", "plan": tr["plan"], "first": tr["first"], "schedule": jobs[i]["schedule"],
                               "expected": tr["hist"], "observed": r})
        shutil.rmtree(root, ignore_errors=True)

    return run_part


def wrong(want, r):
    if "hist" not in r:
        return f"the process ended: {r.get('msg')}"
    for n, (w, s) in enumerate(itertools.zip_longest(want, r["hist"])):
        if s is None:
            return f"nothing happened at step {n + 1}"
        bad = [f"{k} is {s.get(k)} instead of {w[k]}" for k in ("t", "ev", "out", "err", "cap") if s.get(k) != w[k]] + s.get("fails", [])
        if bad:
            return f"step {n + 1} (thread {w['t']}): " + "; ".join(bad) + f" {s.get('msg') or ''}"
    return None
