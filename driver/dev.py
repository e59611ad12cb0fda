"""Development aid: dev.py FAMILY [CONST=VALUE...] runs one family and prints the mismatches."""
import sys, time
import vt, conform, families

with vt.Scratch() as s:
    t = time.time()
    consts = dict(a.split("=") for a in sys.argv[2:])
    tlc, got, bad = conform.check_family(families.FAMILIES[sys.argv[1]], s, bool(consts))
    print(f"{len(tlc.cases)} cases, {tlc.states} states, TLC {tlc.wall:.1f} s, total {time.time() - t:.1f} s, {len(bad)} mismatches")
    shown = {}
    for m in bad:
        key = str([x.split("|")[0] for x in m.summary()])
        shown.setdefault(key, []).append(m)
    for k, ms in list(shown.items())[:12]:
        m = ms[0]
        print(f"--- {len(ms)} x, e.g. {m.case['id']}: ", [c for c in m.case["calls"]], {k: v for k, v in m.case["cfg"].items() if v != {"private": False, "deps": False}.get(k, True)})
        for n, f in m.case["world"].items():
            if f["ss"]:
                import render
                print(f"    [{n}]", render.source(f).replace("\n", "\n       "))
        for l in m.summary()[:int(__import__("os").environ.get("N","14"))]:
            print("   ", l)
