#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough]  -- decides one property by symbolic execution of /repo's current source."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from symx import runner
if __name__ == "__main__":
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(runner.main(pid, tier, int(os.environ.get("VERIF_SEED", "1"))))
