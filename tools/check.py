#!/usr/bin/env python3
import sys, os, traceback, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
def main():
    pid = sys.argv[1]
    import checks
    c = vlib.Check(pid)
    try:
        checks.CHECKS[pid](c)
    except vlib.MachineryError as e:
        if c.violations:      # what was found and confirmed before stands
            vlib.log("machinery error after a violation:", e)
            sys.exit(c.finish())
        print("MACHINERY-ERROR property=%s: %s" % (pid, e)); sys.exit(2)
    except Exception:
        traceback.print_exc(); sys.exit(c.finish() if c.violations else 2)
    sys.exit(c.finish())
main()
