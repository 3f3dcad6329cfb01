#!/usr/bin/env python3
"""check.py <property id>: decides one property on /repo's current tree (tier: VERIF_TIER)."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]
import vlib
import app_checks, keyper_checks

CHECKS = {**app_checks.CHECKS, **keyper_checks.CHECKS}

def main():
    pid = sys.argv[1]
    c = vlib.Check(pid)
    try:
        CHECKS[pid](c)
    except vlib.Broken as e:
        print("BROKEN:", e, file=sys.stderr)
        if c.violations:
            return c.finish()
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    return c.finish()

sys.exit(main())
