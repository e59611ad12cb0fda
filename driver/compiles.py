"""Compiles the bindings of the cases of families (C03)."""
import concurrent.futures, hashlib, random

import conform, families, render, vt


def well_formed(facts):
    """What is wrong with bindings, whatever they are the bindings of."""
    bad = [f for f in facts if f.startswith(("dup|", "other|"))]
    return bad


def part(budget, deep_budget):
    """budget: family -> bytes of generated code to compile (chosen by the seed)."""

    def explore(run, name):
        """(TLC, jobs, results) of a family"""
        fam = families.FAMILIES[name]
        fam = conform.Family(fam.name, exact=fam.exact, consts={**fam.consts, **({"Depth": 1500} if run.thorough and name == "Mixed" else {})}, extra=lambda c: {"want_text": True})
        tlc = vt.Tlc(fam.module, run.scratch, fam.consts, workers=2).must_pass()
        return (tlc, *conform.run_cases(tlc.cases.values(), run.scratch, fam))

    def run_part(run):
        import runtime
        texts = {}
        want = deep_budget if run.thorough else budget
        with concurrent.futures.ThreadPoolExecutor(4) as pool:
            explored = dict(zip(want, pool.map(lambda name: explore(run, name), want)))
        for name, limit in want.items():
            tlc, jobs, got = explored.pop(name)
            run.tlc(tlc)
            here = {}
            for id, case in sorted(tlc.cases.items()):
                r = got[id]
                detail = {"family": name, "case": id, "files": files_of(case), "cfg": jobs[id]["cfg"], "calls": jobs[id]["calls"]}
                if r["outcome"] == "unparsable":
                    run.violation(f"{name}: case {id}: the bindings are no Rust items: {r.get('msg')}", detail)
                for f in well_formed(r.get("facts", [])):
                    run.violation(f"{name}: case {id}: {f}", detail)
                if r["outcome"] == "ok":
                    here.setdefault(hashlib.sha1(r["text"].encode()).hexdigest(), (r["text"], detail))
            keys = sorted(here)
            random.Random(f"{vt.SEED} {name}").shuffle(keys)
            size, taken = 0, 0
            for k in keys:
                if size + len(here[k][0]) <= limit and k not in texts:
                    texts[k] = here[k]
                    size += len(here[k][0])
                    taken += 1
            run.parts[name] = {"cases": len(tlc.cases), "distinct_bindings": len(here), "compiled": taken, "bytes": size}
        names = {f"w{i}": k for i, k in enumerate(sorted(texts))}
        d, where, failed = runtime.build(run.scratch, [(n, texts[k][0], []) for n, k in names.items()], check_only=True)
        run.traces += len(texts)
        for n, (_, msg) in failed.items():
            detail = texts[names[n]][1]
            run.violation(f"{detail['family']}: case {detail['case']}: the bindings do not compile: {msg[:500]}", {**detail, "error": msg})
        for k in sorted(texts)[:3]:
            run.sample({"case": texts[k][1]["case"], "files": texts[k][1]["files"], "compiled": texts[k][0][:1500]})

    return run_part


def files_of(case):
    return {n.replace(".", "/") + ("/__init__.py" if f["pkg"] else ".py"): render.source(f) for n, f in case["world"].items()}
