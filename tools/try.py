#!/usr/bin/env python3
"""try.py PROP FILE  (stdin: old text, a line ====, new text[, a line ----, next pair]): run a check on a changed scratch copy of /repo"""
import sys, os, subprocess, shutil, tempfile
prop, fn = sys.argv[1:3]
d = tempfile.mkdtemp(prefix="try")
try:
    shutil.copytree("/repo/javatools", d + "/r/javatools")
    p = d + "/r/javatools/" + fn
    s = open(p).read()
    for blk in sys.stdin.read().split("\n----\n"):
        a, b = blk.split("\n====\n")
        a, b = a.strip("\n"), b.strip("\n")
        assert s.count(a) >= 1, "not found: " + a
        s = s.replace(a, b, 1)
    open(p, "w").write(s)
    r = subprocess.run(["./run.py", prop] + sys.argv[3:], cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                       env=dict(os.environ, PV_REPO=d + "/r"), capture_output=True, text=True)
    out = r.stdout.splitlines()
    print("rc", r.returncode, "|", " || ".join(l[:260] for l in out if "VIOL" in l or l.startswith("--") or "obligations" in l), r.stderr[-300:])
finally:
    shutil.rmtree(d)
