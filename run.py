#!/opt/veriftools/pyvenv/bin/python
"""run.py PROPERTY [--tier quick|thorough] [--only CONTRACT]
Proves the contracts of one property on /repo's current source, replays counter-models and random
inputs against the uninstrumented code, and reports.  Exit 0: held.  Exit 1: VIOLATION line(s)."""
import sys, os, json, time, subprocess, multiprocessing, importlib, hashlib, traceback, faulthandler, signal

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = "/opt/venv/bin/python"
REPO = os.environ.get("PV_REPO", "/repo")

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(6000)
faulthandler.register(signal.SIGUSR1)

MODULE = {}


def job_prove(args):
    name, deadline = args
    from pv import api, prove
    con = [c for c in api.REGISTRY if c.name == name][0]
    try:
        return prove.prove_contract(con, min(deadline, time.time() + con.budget))
    except BaseException as e:
        return unproved(con, "engine", "undecided: %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:]))


def unproved(con, what, why):
    return {"name": con.name, "prop": con.prop, "functions": list(con.functions), "bound": con.bound, "obligations": 0, "discharged": 0,
            "backends": {}, "fails": [(what, why)], "paths": 0, "covers": {}, "models": [], "called": [], "assumed": [], "queries": 0,
            "solver_time": 0, "wall": 0}


def concrete(module, jobs, seed, tier, timeout):
    """several worker processes over the jobs; a crashed worker is a finding of its own"""
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PV_REPO=REPO, TZ="UTC")
    procs = []
    n = max(1, min(8, len(jobs)))
    for w in range(n):
        mine = jobs[w::n]
        cmd = [VENV, "-B", os.path.join(HERE, "pv", "concrete.py")]
        p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, cwd="/tmp")
        procs.append((p, mine, json.dumps({"module": module, "tier": tier, "seed": seed, "jobs": mine})))
    import threading
    outs = {}

    def go(k):
        p, mine, data = procs[k]
        try:
            outs[k] = p.communicate(data, timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            outs[k] = p.communicate()
    ts = [threading.Thread(target=go, args=(k,)) for k in range(len(procs))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    res = []
    for k, (p, mine, _d) in enumerate(procs):
        out, err = outs[k]
        if "@@RESULT@@" in out:
            res += json.loads(out.split("@@RESULT@@", 1)[1])
        else:
            for j in mine:
                res.append({"contract": j["contract"], "evaluated": 0, "rejected": 0, "fails": [], "replayed": [], "samples": [],
                            "distinct": 0, "errors": ["worker ended: " + (err or "")[-1200:]]})
    return res


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    module = prop.lower()
    from pv import loader, api, core
    loader.install()
    loaderr = None
    try:
        mod = importlib.import_module("specs." + module)
        for m in getattr(mod, "MODULES", ("javatools", "javatools.pack", "javatools.opcodes", "javatools.change")):
            importlib.import_module(m)
        loader.snapshot()
    except BaseException as e:
        loaderr = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-2500:])
    from pv import api
    # contracts of other properties may come with what a module imports
    api.REGISTRY[:] = [c for c in api.REGISTRY if c.prop == prop]
    if loaderr and not api.REGISTRY:
        # the contract file itself could not be loaded symbolically (the code under it failed to load)
        api.SYM = False
    cons = [c for c in api.REGISTRY if c.prop == prop and (only is None or only in c.name)]
    budget = 560 if tier == "quick" else 3000
    deadline = t0 + budget
    proofs = {}
    if not loaderr:
        names = [c.name for c in sorted(cons, key=lambda c: -getattr(c, "weight", 1)) if c.symbolic]
        with multiprocessing.get_context("fork").Pool(min(8, max(1, len(names))), maxtasksperchild=1) as pool:
            it = pool.imap_unordered(job_prove, [(n, deadline) for n in names], chunksize=1)
            for _ in names:
                try:
                    r = it.next(timeout=max(1, deadline + 40 - time.time()))
                except multiprocessing.TimeoutError:
                    pool.terminate()
                    break
                proofs[r["name"]] = r
        for c in cons:
            if c.symbolic and c.name not in proofs:
                proofs[c.name] = unproved(c, "budget", "undecided: no answer within the time of this check")
    else:
        for c in cons:
            if c.symbolic:
                proofs[c.name] = unproved(c, "load", "undecided: the code could not be loaded by the verifier: " + loaderr)
    tproof = time.time() - t0
    jobs = []
    for c in cons:
        if not c.concrete:
            continue
        pr = proofs.get(c.name)
        failed = pr is not None and pr["fails"]
        n = c.cases_quick if tier == "quick" else c.cases_thorough
        if failed:
            n = max(n * 4, 2000)
        jobs.append({"contract": c.name, "cases": n, "seconds": (60 if failed else 40) if tier == "quick" else 400,
                     "replay": [m for _n, m in (pr["models"] if pr else [])]})
    if loaderr and not cons:
        # every contract of the module, discovered by the concrete side
        pass
    conc = {r["contract"]: r for r in concrete(module, jobs, seed, tier, 250 if tier == "quick" else 3600)} if jobs else {}

    known_file = {}
    kf = os.path.join(HERE, "known_findings.json")
    if os.path.exists(kf):
        known_file = {k["id"]: k for k in json.load(open(kf)).get("findings", []) if k["property"] == prop}

    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    viol = []
    soft = []
    for c in cons:
        pr = proofs.get(c.name)
        cr = conc.get(c.name)
        wit = [f for f in (cr["fails"] if cr else []) if not (f["known"] and f["known"] in known_file)]
        for f in (cr["fails"] if cr else []):
            if f["known"] and f["known"] in known_file:
                known_file[f["known"]]["seen"] = f
        if wit:
            f = min(wit, key=lambda f: len(json.dumps(f["input"], default=str)))
            viol.append((c, {"contract": c.name, "functions": list(c.functions), "input": f["input"], "observed": f["message"],
                             "origin": f["origin"], "failed_obligations": pr["fails"] if pr else [],
                             "how_to_replay": "cd /verif && /opt/venv/bin/python tools/replay.py <this file>"}, True))
        elif pr and pr["fails"]:
            soft.append((c, {"contract": c.name, "functions": list(c.functions), "failed_obligation": pr["fails"][0][0],
                             "failed_obligations": pr["fails"], "counter_models_tried": pr["models"],
                             "concrete_search": {k: cr[k] for k in ("evaluated", "rejected", "errors")} if cr else None}, False))
        elif cr and cr["errors"]:
            soft.append((c, {"contract": c.name, "failed_obligation": "concrete evaluation", "errors": cr["errors"]}, False))
        elif cr and cr["evaluated"] == 0:
            soft.append((c, {"contract": c.name, "failed_obligation": "concrete evaluation", "errors": ["no case satisfied the precondition"]}, False))
    if loaderr and not cons:
        soft.append((None, {"contract": prop, "failed_obligation": "load", "errors": [loaderr]}, False))
    for kid, k in known_file.items():
        if k.get("seen"):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    out = viol or soft
    for c, data, haswit in out:
        nm = "%s-%s.json" % (prop, hashlib.sha1((data["contract"]).encode()).hexdigest()[:10])
        path = os.path.join(rdir, nm)
        data["property"] = prop
        with open(path, "w") as f:
            json.dump(data, f, indent=1, default=str)
        print("-- %s: %s" % (data["contract"], (data.get("observed") or str((data.get("failed_obligations") or data.get("errors"))[0]))[:700]))
        print("VIOLATION property=%s replay=%s%s" % (prop, os.path.relpath(path, HERE), "" if haswit else " no-failing-input-found"))

    manifest = json.load(open(os.path.join(HERE, "MANIFEST.json"))) if os.path.exists(os.path.join(HERE, "MANIFEST.json")) else {"checks": []}
    level = next((c["level"] for c in manifest["checks"] if c["property"] == prop), "proof")
    unb = [p for p in proofs.values() if not p["bound"]]
    bnd = [p for p in proofs.values() if p["bound"]]
    cov = {
        "obligations": sum(p["obligations"] for p in unb),
        "discharged": sum(p["discharged"] for p in unb),
        "checker_cmd": "/verif/run.py %s --tier %s (path exploration of the instrumented /repo sources; z3 %s, cvc5 as second opinion)" % (prop, tier, _z3v()),
        "trusted_base": TRUSTED,
        "contracts": {p["name"]: {"functions": p["functions"], "obligations": p["obligations"], "discharged": p["discharged"], "paths": p["paths"],
                                  "backends": p["backends"], "solver_s": p["solver_time"], "wall_s": p["wall"], "bounded": p["bound"],
                                  "reached": p["covers"], "callee_contracts_used": p["assumed"],
                                  "failed": [x[0] for x in p["fails"]]} for p in proofs.values()},
        "functions_under_contract": sorted({f for p in unb if not p["fails"] for f in p["functions"]}),
        "functions_bounded_only": sorted(({f for p in bnd for f in p["functions"]} | {f for c in cons if not c.symbolic for f in c.functions})
                                         - {f for p in unb if not p["fails"] for f in p["functions"]}),
        "functions_executed_in_proofs": sorted({f for p in proofs.values() for f in p["called"] if f.startswith("javatools")}),
        "bounded_obligations": sum(p["obligations"] for p in bnd),
        "solver_s": round(sum(p["solver_time"] for p in proofs.values()), 2),
        "solver_queries": sum(p["queries"] for p in proofs.values()),
        "evaluations": sum(r["evaluated"] for r in conc.values()),
        "distinct_nontrivial": sum(r.get("distinct", 0) for r in conc.values()),
        "rule": "concrete cross-check: the same contracts evaluated on the uninstrumented code with random boundary-biased inputs; distinct = different drawn inputs satisfying the precondition; bounded, not counted as proved",
        "samples": [s for r in conc.values() for s in r.get("samples", [])][:4] or [{"note": "no concrete inputs"}],
        "concrete": {r["contract"]: {"evaluated": r["evaluated"], "rejected": r["rejected"], "failed": len(r["fails"]), "errors": r["errors"][:1]} for r in conc.values()},
        "proof_wall_s": round(tproof, 1),
    }
    if level in ("exploration", "other"):
        cov["explanation"] = "bounded contracts only"
    mod = sys.modules.get("specs." + module)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": ASSUMPTIONS + list(getattr(mod, "ASSUMPTIONS", ())),
          "wall_s": round(time.time() - t0, 2), "violations": len(out)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s: %d contracts, %d/%d obligations discharged (+%d bounded), %d concrete evaluations, %.1f s" % (
        prop, len(cons), cov["discharged"], cov["obligations"], cov["bounded_obligations"], cov["evaluations"], time.time() - t0))
    sys.stdout.flush()
    return 1 if out else 0


def _z3v():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return "?"


TRUSTED = [
    "z3 (and cvc5 where z3 answers unknown)",
    "CPython executing the instrumented functions: control flow, attribute access, exceptions and name binding are python's own",
    "pv/instr.py: the syntactic rewriting of the sources (documented in its header); __del__ methods are dropped, bare except becomes except Exception, generators are evaluated eagerly at first consumption",
    "pv/rt.py, pv/vals.py: models of the builtins, containers, strings and struct on symbolic values",
    "the soundness of the loop rule: closed forms checked at entry and preserved by an arbitrary iteration",
]
ASSUMPTIONS = [
    "python integers are mathematical; integers read from bytes are exact",
    "partial correctness: termination is not proved (concrete cases have a time limit)",
    "text is a sequence of unicode scalar values as in the solver's string theory (code points up to U+2FFFF)",
    "no MemoryError, RecursionError or asynchronous exception occurs",
]

if __name__ == "__main__":
    sys.exit(main())
