#!/usr/bin/env python3
"""plant.py ID PROP FILE NEEDS BREAKS  (stdin: old, ====, new [, ----, next pair], then a line @@@@ and the demo program in python):
make /verif/seeded/ID and confirm in a scratch copy that tests pass with the change and the demo tells the difference"""
import sys, os, subprocess, shutil, tempfile, json
ident, prop, fn, needs, breaks = sys.argv[1:6]
text, demo = sys.stdin.read().split("\n@@@@\n")
d = tempfile.mkdtemp(prefix="plant")
out = "/verif/seeded/" + ident
try:
    subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
    r = d + "/repo"
    p = r + "/javatools/" + fn
    s = open(p).read()
    for blk in text.split("\n----\n"):
        a, b = blk.split("\n====\n")
        a, b = a.strip("\n"), b.strip("\n")
        assert s.count(a) == 1, "%d times: %s" % (s.count(a), a)
        s = s.replace(a, b, 1)
    os.makedirs(out, exist_ok=True)
    open(out + "/demo.py", "w").write(demo.strip("\n") + "\n")
    open(out + "/demo.sh", "w").write('#!/bin/sh\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(out + "/meta.json", "w"), indent=1)
    a = subprocess.run(["sh", out + "/demo.sh"], cwd=r, capture_output=True, text=True)
    open(p, "w").write(s)
    diff = subprocess.run(["git", "diff"], cwd=r, capture_output=True, text=True).stdout
    open(out + "/patch.diff", "w").write(diff)
    b = subprocess.run(["sh", out + "/demo.sh"], cwd=r, capture_output=True, text=True)
    # stable tests on the changed copy
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = set(base.get("stable") or base.get("passed") or base.get("tests") or [])
    subprocess.run(["git", "-C", "/repo", "apply", out + "/patch.diff"], check=True)
    try:
        subprocess.run(["bash", "/opt/vp/build.sh"], capture_output=True)
        subprocess.run(["bash", "/opt/vp/test.sh", d + "/t.json"], capture_output=True)
        t = json.load(open(d + "/t.json"))
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
        subprocess.run(["bash", "/opt/vp/build.sh"], capture_output=True)
    passed = set(t.get("passed") or [k for k, v in t.get("results", {}).items() if v == "passed"])
    miss = sorted(stable - passed)
    print(ident, "clean rc", a.returncode, "| changed rc", b.returncode, "| tests missing", miss[:4])
    if a.returncode:
        print(a.stdout[-400:], a.stderr[-800:])
    if not b.returncode or a.returncode or miss:
        print("REJECTED"); shutil.rmtree(out)
    else:
        print("   ", (b.stdout + b.stderr).strip().splitlines()[-1:])
finally:
    shutil.rmtree(d)
