#!/usr/bin/env python3
"""mut.py PROP[,PROP] FILE OLD NEW [n]: run checks against a scratch copy of the package with one replacement."""
import os, shutil, subprocess, sys, tempfile
props, f, old, new = sys.argv[1:5]
nth = int(sys.argv[5]) if len(sys.argv) > 5 else 0
d = tempfile.mkdtemp(prefix="mut")
shutil.copytree("/repo/dreimac", d + "/dreimac", ignore=shutil.ignore_patterns("__pycache__"))
p = d + "/dreimac/" + f
s = open(p).read()
parts = s.split(old)
assert len(parts) > 1, "text not found"
assert len(parts) == 2 or nth, "%d occurrences: say which" % (len(parts) - 1)
k = max(nth, 1)
open(p, "w").write(old.join(parts[:k]) + new + old.join(parts[k:]))
for q in props.split(","):
    r = subprocess.run(["python3", "/verif/check.py", q], env=dict(os.environ, DREIMAC_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    lines = r.stdout.strip().split("\n")
    print("%s exit %d: %s" % (q, r.returncode, "CAUGHT" if r.returncode == 1 else "MISSED" if r.returncode == 0 else "ERROR"))
    print("   " + "\n   ".join(x[:260] for x in lines[:4] + lines[-1:]))
shutil.rmtree(d)
