#!/usr/bin/env python3
"""trybugs.py [ID...]: applies each planted bug to /repo in turn, runs the quick check of its property
(or --prop P) and undoes it.  Development tool; no check uses it."""
import json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
prop = None
if "--prop" in args:
    i = args.index("--prop")
    prop = args[i + 1]
    del args[i:i + 2]
ids = args or sorted(os.listdir(os.path.join(HERE, "seeded")))
for s in ids:
    d = os.path.join(HERE, "seeded", s)
    p = prop or json.load(open(os.path.join(d, "meta.json")))["property"]
    if subprocess.run(["git", "-C", "/repo", "apply", os.path.join(d, "patch.diff")]).returncode:
        print(s, "DOES NOT APPLY")
        continue
    t = time.time()
    try:
        r = subprocess.run([sys.executable, os.path.join(HERE, "tools", "check.py"), p, "quick"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    last = [l for l in r.stdout.splitlines() if l.strip()][-2:]
    print(s, p, {0: "MISSED", 1: "caught", 2: "NO ANSWER"}.get(r.returncode, r.returncode), "%.0fs" % (time.time() - t), " | ".join(x[:160] for x in last), flush=True)
