#!/usr/bin/env python3
"""check.py <property id>: decide one property.  check.py replay FILE: run a
recorded violation again."""
import json, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
sys.dont_write_bytecode = True
import vlib, checks


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        return checks.replay(sys.argv[2])
    pid = sys.argv[1]
    chk = vlib.Check(pid)
    try:
        checks.CHECKS[pid](chk)
        rc = chk.finish()
    except vlib.CheckError as e:
        print("ERROR property=%s %s" % (pid, e))
        rc = 2
    except Exception:
        traceback.print_exc(file=sys.stdout)
        rc = 2
    finally:
        chk.close()
    return rc


sys.exit(main())
