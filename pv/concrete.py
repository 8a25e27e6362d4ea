"""Runs contracts concretely against the uninstrumented code in /repo (under /opt/venv/bin/python).
stdin: JSON {module, tier, seed, jobs: [{contract, replay: [input...], cases: n}]}; stdout: JSON results."""
import sys, os, json, random, time, traceback, signal, importlib, io, contextlib

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PV_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)

from pv import api, cworld          # noqa


class Lib:
    def __getattr__(self, name):
        m = importlib.import_module("javatools" if name == "jt" else "javatools." + name)
        setattr(self, name, m)
        return m


class Hang(BaseException):
    pass


def on_alarm(*_a):
    raise Hang()


def outcome(con, L, inp):
    try:
        return "ret", con.run(L, inp)
    except Exception as e:
        return "raise", e


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    return "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-4:])


def judge(con, L, source):
    """('ok'|'reject'|'fail', message, world)"""
    w = cworld.World(source)
    try:
        try:
            inp = con.inputs(w)
        except api.Reject:
            return "reject", "", w
        if con.post is not None:
            got = outcome(con, L, inp)
            try:
                con.post(inp, got)
            except AssertionError as e:
                return "fail", "postcondition: %s (outcome %s)" % (e, short(got)), w
            return "ok", "", w
        inp2 = inp
        if con.fresh_inputs:
            inp2 = con.inputs(cworld.World(cworld.DictSource(w.rec)))
        got = outcome(con, L, inp)
        try:
            exp = ("ret", con.spec(inp2))
        except api.Raises as e:
            exp = ("raise", e)
        except api.Reject:
            return "reject", "", w
        if exp[0] == "ret":
            if got[0] == "raise":
                return "fail", "raised %s: %s (at %s), expected %s" % (type(got[1]).__name__, got[1], where(got[1]), short(exp[1])), w
            d = cworld.diff(got[1], exp[1])
            return ("fail", d[:1500], w) if d else ("ok", "", w)
        r = exp[1]
        if got[0] == "ret":
            return "fail", "returned %s, expected an exception %s" % (short(got[1]), r.kind), w
        e = got[1]
        if not any(k in [c.__name__ for c in type(e).__mro__] for k in r.kind.split("|")):
            return "fail", "raised %s: %s (at %s), expected %s" % (type(e).__name__, e, where(e), r.kind), w
        for k, v in r.fields.items():
            d = cworld.diff(getattr(e, k, None), v, "error field %s" % k)
            if d:
                return "fail", d, w
        return "ok", "", w
    except Hang:
        return "fail", "did not finish within the time allowed for one case", w


def short(x, n=500):
    try:
        s = repr(x)
    except Exception as e:
        s = "<unprintable %s>" % type(e).__name__
    return s if len(s) <= n else s[:n] + "..."


def run(job, L, con, seed, tier):
    out = {"contract": con.name, "evaluated": 0, "rejected": 0, "fails": [], "replayed": [], "errors": [], "samples": []}
    limit = getattr(con, "case_seconds", 20)
    seen = set()

    def one(src, origin):
        signal.alarm(limit)
        buf = io.StringIO()
        try:
            with contextlib.redirect_stdout(buf):
                v, msg, w = judge(con, L, src)
        except Hang:
            v, msg, w = "fail", "did not finish within the time allowed for one case", None
        except Exception as e:
            signal.alarm(0)
            out["errors"].append("%s: %s" % (type(e).__name__, traceback.format_exc()[-800:]))
            return "error"
        finally:
            signal.alarm(0)
        rec = w.rec if w else {}
        if v == "reject":
            out["rejected"] += 1
        else:
            out["evaluated"] += 1
            seen.add(json.dumps(rec, sort_keys=True, default=str))
            if len(out["samples"]) < 2 and rec:
                s = json.dumps(rec, default=str)
                if len(s) < 600:
                    out["samples"].append(rec)
        if v == "fail":
            out["fails"].append({"origin": origin, "input": rec, "message": msg, "known": con.known(rec) if hasattr(con, "known") else None})
        return v

    for r in job.get("replay", []):
        out["replayed"].append(one(cworld.DictSource(r), "counter-model"))
    for r in con.fixed_cases:
        one(cworld.DictSource(r), "fixed")
    n = job["cases"]
    t0 = time.time()
    k = 0
    bad = 0
    while k < n and bad < 4 * n and time.time() - t0 < job.get("seconds", 60) and len([f for f in out["fails"] if not f["known"]]) < 5:
        rng = random.Random("%s/%s/%d/%d" % (seed, con.name, k, bad))
        v = one(cworld.RandomSource(rng), "random")
        if v == "reject":
            bad += 1
        else:
            k += 1
        if len(out["errors"]) > 3:
            break
    out["distinct"] = len(seen)
    return out


def main():
    spec = json.load(sys.stdin)
    signal.signal(signal.SIGALRM, on_alarm)
    real = sys.stdout
    mod = importlib.import_module("specs." + spec["module"])
    L = Lib()
    cons = {c.name: c for c in api.REGISTRY if c.prop == spec["module"].upper()}
    res = []
    for job in spec["jobs"]:
        con = cons[job["contract"]]
        try:
            res.append(run(job, L, con, spec["seed"], spec["tier"]))
        except Exception as e:
            res.append({"contract": con.name, "evaluated": 0, "rejected": 0, "fails": [], "replayed": [], "samples": [], "distinct": 0,
                        "errors": ["%s: %s" % (type(e).__name__, traceback.format_exc()[-1500:])]})
    real.write("\n@@RESULT@@" + json.dumps(res, default=str))
    real.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
