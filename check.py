#!/usr/bin/env python3
"""check.py <property id>: runs the check of one property; exit 0 held, 1 VIOLATION, 2 no answer."""
import importlib, os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core


def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    try:
        mod = importlib.import_module("checks." + pid.lower())
        ctx = core.Ctx(pid)
        try:
            mod.run(ctx)
        except core.Refused as e:
            ctx.violate("%s: a valid operation fails: %s" % (pid, e), {"op": e.op, "observed": e.obs})
        rc = ctx.finish()
    except core.ToolError as e:
        print("TOOL ERROR property=%s: %s" % (pid, e), file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)


main()
