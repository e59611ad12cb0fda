"""Replays the behaviours of the specification on the engine and compares the outcome."""
import re, shutil, tempfile

import vt


class Family:
    """A model of cases: spec/MC_<name>.tla; every behaviour of it ends in what the engine must do.

    deep    constants of the thorough run
    extra   case -> additional fields of its job
    also    (case, job result) -> complaints that are not about the facts
    exact   the facts are all of those that the engine may give (otherwise: some of them)
    envs    environments to run the engine in; the first is the default one
    text    (case, job result) -> key, text: the same text for the same key, in all environments
    """

    def __init__(self, name, deep=None, extra=None, also=None, exact=True, envs=({},), consts=None, text=None):
        self.name, self.module, self.consts, self.deep = name, "MC_" + name, consts or {}, deep or {"Depth": 2}
        self.extra, self.also, self.exact, self.envs = extra, also, exact, envs
        self.text = text


class Mismatch:
    def __init__(self, case, missing, extra, expected, observed, job, where, complaints=()):
        self.case, self.missing, self.extra, self.complaints = case, missing, extra, list(complaints)
        self.expected, self.observed, self.job, self.where = expected, observed, job, where

    def summary(self):
        s = list(self.complaints)
        if self.expected["outs"] != vt.outcomes(self.observed):
            s.append(f"outcome {vt.outcomes(self.observed)} instead of {self.expected['outs']} "
                     f"{self.observed.get('msg', '')} {[x.get('msg') for x in self.observed.get('steps', []) if 'msg' in x]}")
        s += [f"missing {f}" for f in sorted(self.missing)] + [f"unexpected {f}" for f in sorted(self.extra)]
        return s


def run_cases(cases, scratch, fam=None, env=None):
    root = tempfile.mkdtemp(prefix="worlds-", dir=scratch)
    jobs = {}
    for c in cases:
        j = vt.job_of(c, root)
        if fam and fam.extra:
            j.update(fam.extra(c))
        jobs[c["id"]] = j
    try:
        return jobs, vt.run_jobs(jobs.values(), scratch, {**vt.run_env(), **(env or {})})
    finally:
        shutil.rmtree(root, ignore_errors=True)


DUNDER = re.compile(r"(?<!\w)(?:[gs]et_)?__\w+__(?!\w)")


BUILTINS = {"int", "str", "bool", "float", "list", "dict", "set", "tuple", "bytes"}


def visible(case, facts):
    """Facts that the specification speaks about. With private names included, the names that Python
    itself gives to everything appear as well (__file__, __eq__, ...); and subclasses of builtin
    classes inherit members that the specification does not list."""
    if case["cfg"]["private"]:
        facts = (f for f in facts if not DUNDER.search(f))
    hidden = [f"{m}.{s['n']}::" for m, f in case["world"].items() for s in f["ss"]
              if s["s"] == "class" and s["base"] in BUILTINS]
    if hidden:
        facts = (f for f in facts if not any(h in f for h in hidden))
    return set(facts)


BAD_ANYWHERE = ("dup|", "other|", "private-")


def contains(case, want, facts):
    """What is wrong, if the facts only have to include what the specification says."""
    loose = any(s["s"] == "code" and s["may"] for f in [*case["world"].values(), *(c["file"] for c in case["calls"] if "file" in c)]
                for s in f["ss"])
    return set() if loose else want - facts, {f for f in facts if f.startswith(BAD_ANYWHERE)}


def compare(tlc, jobs, got, fam=None):
    """Mismatches between what TLC allows and what the engine did."""
    bad = []
    for id, case in tlc.cases.items():
        allowed = tlc.results.get(id)
        if not allowed:
            raise vt.ToolError(f"{tlc.module}: no behaviour of case {id} ends")
        r = got[id]
        facts, outs = visible(case, r.get("facts", [])), vt.outcomes(r)
        best = None
        for a in allowed:
            want = visible(case, a["facts"])
            missing, extra = (want - facts, facts - want) if not fam or fam.exact else contains(case, want, facts)
            diff = (a["outs"] != outs, len(missing) + len(extra))
            if best is None or diff < best[0]:
                best = (diff, a, missing, extra)
        complaints = fam.also(case, r) if fam and fam.also else []
        if best[0] != (False, 0) or complaints:
            _, a, missing, extra = best
            bad.append(Mismatch(case, missing, extra, a, r, jobs[id], tlc.module, complaints))
    return bad


def check_family(fam, scratch, thorough=False, workers=vt.CORES):
    tlc = vt.Tlc(fam.module, scratch, {**fam.consts, **(fam.deep if thorough else {})}, workers=workers).must_pass()
    if set(tlc.results) != set(tlc.cases):
        raise vt.ToolError(f"{fam.module}: cases and results differ")
    bad, texts = [], {}
    for env in fam.envs:
        jobs, got = run_cases(tlc.cases.values(), scratch, fam, env)
        bad += compare(tlc, jobs, got, fam)
        for id, case in tlc.cases.items() if fam.text else ():
            key, text = fam.text(case, got[id])
            if texts.setdefault(key, text) != text:
                bad.append(Mismatch(case, set(), set(), tlc.results[id][0], got[id], jobs[id], fam.module,
                                    [f"another text than before, in environment {env} after {case['pre']}"]))
    return tlc, got, bad
