"""writes CONTRACTS.md: every contract, its functions, and what each run discharges (from the evidence files)"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = ["# Contracts", "", "Written by tools/mkcontracts.py from the evidence of a quick run on the unchanged tree.", ""]
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)
    f = os.path.join(H, "evidence", p["id"] + ".json")
    if not os.path.exists(f):
        continue
    e = json.load(open(f))
    c = e["coverage"]
    out += ["## %s %s" % (p["id"], p["title"]), "", "level: %s; %s obligations discharged, %s bounded" % (e["level"], c.get("discharged"), c.get("bounded_obligations", 0)), "",
            "| contract | functions | obligations | paths | bounded |", "|---|---|---|---|---|"]
    for n, k in c.get("contracts", {}).items():
        out.append("| %s | %s | %d | %d | %s |" % (n, ", ".join(k["functions"]).replace("javatools", "jt"), k["obligations"], k["paths"], k["bounded"] or ""))
    out.append("")
    if c.get("functions_bounded_only"):
        out += ["bounded checks only: " + ", ".join(c["functions_bounded_only"]).replace("javatools", "jt"), ""]
open(os.path.join(H, "CONTRACTS.md"), "w").write("\n".join(out))
