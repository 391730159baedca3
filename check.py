#!/usr/bin/env python3
"""Runs the check of one property: check.py <ID>; see DESIGN.md."""
import json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vf.common import *


def main(argv):
    if argv[:1] == ["--mine"]:
        i, f, s = mine()
        with open(os.path.join(HARN, "literals.json"), "w") as o:
            json.dump({"ints": i, "floats": f, "strings": s}, o, indent=0)
            o.write("\n")
        return 0
    if argv[:1] == ["--setup"]:
        build_harness("plain")
        log("setup: harness builds")
        return 0
    if argv[:1] == ["--replay"]:
        from vf import props
        return props.replay(argv[1])
    from vf import props
    pid = argv[0]
    ck = Check(pid)
    try:
        props.CHECKS[pid](ck)
        return ck.finish()
    finally:
        ck.close()


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except Infra as e:
        log("ERROR: %s" % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
