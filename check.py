#!/usr/bin/env python3
"""check.py <property id> [--replay FILE]      environment: VERIF_SEED, VERIF_TIER"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from fuelpbt import runner  # noqa: E402

if __name__ == "__main__":
    pid = sys.argv[1]
    replay = sys.argv[3] if len(sys.argv) > 3 and sys.argv[2] == "--replay" else None
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    sys.exit(runner.run(pid, tier, seed, replay))
