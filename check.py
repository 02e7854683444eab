#!/usr/bin/env python3
"""usage: check.py <property id> [quick|thorough]"""
import sys, os, importlib, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib
def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else None
    ck = vlib.Check(pid, tier)
    try:
        importlib.import_module("p_" + pid).run(ck)
        rc = ck.finish()
    except vlib.EnvError as e:
        if ck.violations:           # a confirmed rejection stands even if a later stage failed
            print("stage error:", e); rc = ck.finish()
        else:
            print("CHECK-ERROR property=%s %s" % (pid, e)); rc = 2
    except Exception:
        traceback.print_exc(); rc = 2
    sys.exit(rc)
main()
