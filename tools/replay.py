#!/opt/venv/bin/python
"""replay.py FILE: run the recorded input of a violation against the code in /repo"""
import sys, os, json, importlib
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from pv import concrete, api, cworld
d = json.load(open(sys.argv[1]))
importlib.import_module("specs." + d["property"].lower())
con = [c for c in api.REGISTRY if c.name == d["contract"] and c.prop == d["property"]][0]
if "input" not in d:
    print("no failing input was found; failed obligations:")
    for n, r in d.get("failed_obligations", []):
        print(n, ":", r)
    sys.exit(2)
print(concrete.judge(con, concrete.Lib(), cworld.DictSource(d["input"]))[:2])
