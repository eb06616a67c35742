#!/usr/bin/env python3
"""mut.py CHECK[,CHECK] FILE OLD NEW [COUNT]: applies one textual change to /repo, runs the checks, undoes it."""
import sys, subprocess
ids, f, old, new = sys.argv[1:5]
n = int(sys.argv[5]) if len(sys.argv) > 5 else 1
p = "/repo/" + f
s = open(p).read()
assert s.count(old) >= 1, "text not found"
t = s.replace(old, new, n)
open(p, "w").write(t)
try:
    for i in ids.split(","):
        r = subprocess.run(["python3", "check.py", i], cwd="/verif", capture_output=True, text=True)
        o = (r.stdout + r.stderr).strip().splitlines()
        print(i, "rc", r.returncode, *[l[:300] for l in o[:4]], sep="\n   ")
finally:
    open(p, "w").write(s)
