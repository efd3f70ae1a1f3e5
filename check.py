#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]  -- decides one property on /repo's current working tree"""
import importlib, os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc.core import Check


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    mod = importlib.import_module("mc.checks." + pid.lower())
    chk = Check(pid, tier)
    try:
        mod.run(chk, tier)
    except Exception:
        traceback.print_exc()
        if chk.violations:      # a replayed violation stands
            return chk.finish()
        chk.cleanup()
        return 2
    return chk.finish()


sys.exit(main())
