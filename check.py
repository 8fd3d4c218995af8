#!/usr/bin/env python3
"""check.py <property id>: decides one property on /repo's current tree (see DESIGN.md)."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib, checks


def main():
    pid = sys.argv[1]
    try:
        sys.exit(checks.CHECKS[pid]())
    except vlib.CheckError as e:
        print("ERROR of the check: %s" % e)
        sys.exit(2)
    except vlib.CompileError as e:
        print("ERROR of the check: %s" % e)
        sys.exit(2)
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        sys.exit(2)


main()
