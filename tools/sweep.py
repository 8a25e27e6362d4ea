#!/usr/bin/env python3
"""sweep.py PROP CASES SEED SECONDS: the concrete runs alone of the contracts without symbolic ones, with more cases and another seed"""
import json, os, re, subprocess, sys
prop, cases, seed, secs = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
code = "import sys; sys.path.insert(0,%r); sys.path.insert(0,'/repo')\nfrom pv import api\nimport specs.%s\nprint([c.name for c in api.REGISTRY if c.prop==%r and c.concrete])" % (H, prop.lower(), prop)
names = eval(subprocess.run(["/opt/venv/bin/python", "-B", "-c", code], capture_output=True, text=True).stdout)
env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PV_REPO="/repo", TZ="UTC")
procs = [(n, subprocess.Popen(["/opt/venv/bin/python", "-B", H + "/pv/concrete.py"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env)) for n in names]
for n, p in procs:
    p.stdin.write(json.dumps({"module": prop.lower(), "tier": "quick", "seed": seed, "jobs": [{"contract": n, "cases": cases, "seconds": secs, "replay": []}]}))
    p.stdin.close()
for n, p in procs:
    t = p.stdout.read()
    r = json.loads(t.split("@@RESULT@@")[1])[0] if "@@RESULT@@" in t else {"evaluated": "?", "fails": [], "errors": ["no result"]}
    print(prop, n, r["evaluated"], "FAILS" if r["fails"] or r["errors"] else "", [(f["message"][:300], f["input"]) for f in r["fails"][:2]], r["errors"][:1])
