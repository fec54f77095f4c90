#!/usr/bin/env python3
"""check.py PROPERTY [--thorough]: decides one property for /repo's working tree."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks  # noqa: E402
from vlib import Ctx  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = Ctx(pid, tier, seed)
    try:
        getattr(checks, pid.lower())(ctx)
    except SystemExit:
        raise
    except Exception:
        import traceback
        traceback.print_exc()
        sys.exit(2)
    ctx.finish()


main()
