#!/usr/bin/env python3
"""check.py C01 : runs one property's check (tier and seed from the environment)."""
import importlib
import os
import sys
import traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "checks"))


def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    import vlib
    c = None
    try:
        mod = importlib.import_module(pid.lower())
        c = vlib.Check(pid, mod.LEVEL)
        mod.run(c)
        return c.finish()
    except vlib.CheckError as e:
        if c is not None and c.violations:  # what was found stands
            vlib.log("the check %s did not get to its end: %s" % (pid, e))
            return c.finish()
        vlib.log("ERROR: the check %s could not run: %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        if c is not None and c.violations:
            return c.finish()
        return 2


sys.exit(main())
