#!/usr/bin/env python3
"""check.py <property> quick|thorough   -- see DESIGN.md"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import vlib, checks
if __name__ == "__main__":
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        sys.exit(vlib.run_check(checks.CHECKS[pid], tier, seed))
    except vlib.Infra as e:
        print("ERROR", e, file=sys.stderr)
        sys.exit(2)
