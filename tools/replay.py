#!/usr/bin/env python3
"""replay.py FILE: run the counterexample of a VIOLATION line against the real code again"""
import json, sys
import check
d = json.load(open(sys.argv[1]))
r = check.Replayer(d["property"], check.JOBS[d["property"]]).replay(d["entry"], d["args"], {"kind": d["found"], "tape": d["tape"]}, d.get("opts", []))
if r is None:
    print("not reproduced")
    sys.exit(0)
print(r[2][-3000:])
print("reproduced (%s build): %s" % (r[0], r[1]))
sys.exit(1)
