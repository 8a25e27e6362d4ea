#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the specs that exist"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL = {}       # property -> level when not "proof"
NA = {
    "C28": "the guarantee is cryptographic: it is a fact about OpenSSL through M2Crypto/the openssl command, not about code in this repository; a contract on those calls would assume the property",
}
CONTRACT = "contract-based deductive verification: obligations generated by symbolic execution of /repo's current functions against written contracts, discharged by z3/cvc5; inductive loop closed forms; counter-models replayed on the real code"
NOTE = {}
LV = json.load(open(os.path.join(H, "tools", "levels.json")))
checks, na = [], []
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in NA:
        na.append({"property": p, "reason": NA[p]})
        continue
    if not os.path.exists(os.path.join(H, "specs", p.lower() + ".py")) or p not in LV:
        na.append({"property": p, "reason": "not claimed: no contracts written for it in this version"})
        continue
    level, note = LV[p]
    checks.append({"property": p, "quick_cmd": "./run.py %s --tier quick" % p, "thorough_cmd": "./run.py %s --tier thorough" % p,
                   "technique": CONTRACT, "level": level, "level_note": note})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
