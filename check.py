#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property on /repo's current tree."""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import checks, core  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    v = core.Verdict(prop, tier, seed)
    try:
        checks.CHECKS[prop](v)
    except core.CheckError as e:
        if v.viol:                     # a confirmed violation stands whatever went wrong later
            return v.finish()
        print("CHECK-ERROR property=%s %s" % (prop, e), file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 1 if v.viol and v.finish() else 2
    return v.finish()


if __name__ == "__main__":
    sys.exit(main())
