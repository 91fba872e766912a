#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's working tree (VERIF_TIER selects quick/thorough)."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2: os.environ["VERIF_TIER"] = sys.argv[2]
    vlib.scratch()
    mod = importlib.import_module("checks." + pid)
    try:
        sys.exit(mod.main())
    except vlib.HarnessError as e:
        print(f"{pid}: harness error: {e}"); sys.exit(2)
    except SystemExit: raise
    except Exception:
        traceback.print_exc(); sys.exit(2)
main()
