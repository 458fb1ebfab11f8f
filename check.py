#!/usr/bin/env python3
"""python3 check.py <PROPERTY> : decide one property of /repo's current tree.  Exit 0 held, 1 violated, 2 analysis broken."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "sa"))
import fw
import registry


def main():
    prop = sys.argv[1]
    if prop == "--setup":
        from model import program
        p = program()
        print("model: %d functions" % len(p.fn))
        return 0
    e = registry.CHECKS.get(prop)
    if e is None:
        print("unknown property", prop)
        return 2
    try:
        return fw.run_check(prop, e["func"], e["level"], e["technique"], e["explanation"], e.get("assumptions", ()))
    except fw.AnalysisError as x:
        print("ANALYSIS-BROKEN property=%s %s" % (prop, x))
        return 2
    except Exception:
        traceback.print_exc()
        return 3


if __name__ == "__main__":
    sys.exit(main())
