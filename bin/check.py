#!/usr/bin/env python3
"""check.py ID [--thorough]: decides one property for /repo's working tree.

Exit 0: it held on everything explored. Exit 1 (and VIOLATION lines): it does not hold.
Exit 2: the check could not do its work."""
import os, sys, traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "driver"))
sys.dont_write_bytecode = True
import vt, checks


def main():
    prop = sys.argv[1]
    thorough = "--thorough" in sys.argv[2:] or os.environ.get("VERIF_TIER") == "thorough"
    try:
        run = checks.execute(prop, thorough)
    except vt.ToolError as e:
        print(f"error: {e}", file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    if run.violations:
        checks.write_replays(run)
        return 1
    vt.log(f"{prop}: held on {run.traces} executions ({run.states} states of the specification)")
    return 0


sys.exit(main())
