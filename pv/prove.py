"""Runs the proof of contracts in this process and returns plain data."""
import sys, os, time, traceback, importlib
import z3
from . import core, loader, rt, vals, api
from .sworld import SymWorld, ModelSource
from .cworld import World


def outcome(con, L, inp):
    """('ret', v) or ('raise', exc)"""
    try:
        return "ret", rt.call(con.run, L, inp)
    except Exception as e:
        if isinstance(e, z3.Z3Exception):
            raise core.Unsupported("solver term error: %s" % e)
        if isinstance(e, (NotImplementedError,)) and "symbolic" in str(e):
            raise core.Unsupported(str(e))
        if isinstance(e, NameError) and "/pv/" in traceback.extract_tb(e.__traceback__)[-1].filename or rt.engine_error(e):
            raise core.Unsupported("%s: %s" % (type(e).__name__, e))
        if os.environ.get("PV_DEBUG") == "2":
            traceback.print_exc()
        return "raise", e


def spec_outcome(con, inp):
    try:
        return "ret", con.spec(inp)
    except api.Raises as e:
        return "raise", e


def compare(con, got, exp):
    p = core.cur()
    if exp[0] == "ret":
        if got[0] == "raise":
            tb = traceback.extract_tb(got[1].__traceback__)
            where = "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-3:])
            p.fail("no exception", "refuted: raises %s: %s (at %s)" % (type(got[1]).__name__, core.short(got[1], 120), where))
        p.covers.append("returns")
        rt.prove_eq(got[1], exp[1], "result")
        p.obls.append(core.Obl("returns", True, "path", 0.0))
        return
    r = exp[1]
    if got[0] == "ret":
        p.fail("raises " + r.kind, "refuted: returned %s" % core.short(got[1], 120))
    e = got[1]
    p.covers.append("raises " + r.kind)
    names = [c.__name__ for c in type(e).__mro__]
    if not any(k in names for k in r.kind.split("|")):
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-3:])
        p.fail("raises " + r.kind, "refuted: raised %s: %s (at %s)" % (type(e).__name__, core.short(e, 120), where))
    p.obls.append(core.Obl("raises " + r.kind, True, "path", 0.0))
    for k, v in r.fields.items():
        rt.prove_eq(getattr(e, k, None), v, "error field " + k)


def prove_contract(con, deadline):
    L = loader.Lib()
    t0 = time.time()
    res = {"name": con.name, "prop": con.prop, "functions": list(con.functions), "bound": con.bound, "obligations": 0,
           "discharged": 0, "backends": {}, "fails": [], "paths": 0, "covers": {}, "models": [], "called": [], "assumed": []}
    state = {}

    def body(p):
        w = SymWorld()
        inp = con.inputs(w)
        p.driver.forms = con.forms(inp) or {}
        p.driver.summaries = dict(api.COMMON if con.summaries is None else con.summaries)
        p.driver.summaries.update(con.callee(L, inp) or {})
        if con.post is None:
            got = outcome(con, L, inp)
            inp2 = con.inputs(SymWorld()) if con.fresh_inputs else inp
            exp = spec_outcome(con, inp2)
            compare(con, got, exp)
        else:
            got = outcome(con, L, inp)
            p.covers.append("returns" if got[0] == "ret" else "raises")
            try:
                con.post(inp, got)
            except AssertionError as e:
                p.fail("postcondition", "refuted: %s" % e)
            p.obls.append(core.Obl("postcondition", True, "path", 0.0))

    def before():
        loader.restore()

    d = core.Driver(body, con.name, deadline, before, None, api.COMMON if con.summaries is None else con.summaries, con.functions, con.unroll, con.maxpaths, con.split_inst)
    d.look_back, d.order_free = con.look_back, con.order_free

    def concretize(path, model):
        w = World(ModelSource(model))
        saved, core.CUR = core.CUR, None
        api.SYM = False
        try:
            con.inputs(w)
        finally:
            core.CUR = saved
            api.SYM = True
        return w.rec
    d.concretize = concretize
    core.STATS = core.Stats()
    fails = []
    try:
        # import everything the contract needs before paths are explored
        r = d.run()
        fails = r.fails
        res["obligations"] = len(r.obls)
        res["discharged"] = sum(1 for o in r.obls if o.ok)
        for o in r.obls:
            if o.ok:
                res["backends"][o.backend] = res["backends"].get(o.backend, 0) + 1
        res["fails"] = [(o.name, o.reason) for o in fails[:6]]
        res["paths"] = r.paths
        res["covers"] = r.covers
        missing = [c for c in con.must_cover if not r.covers.get(c)]
        if not fails and (missing or not res["obligations"] or not r.paths):
            res["fails"].append(("reachability", "undecided: no path reaches %s (%d obligations)" % (missing, res["obligations"])))
    except TimeoutError as e:
        res["fails"].append(("budget", "undecided: %s" % e))
    except core.Ctl as e:
        res["fails"].append(("engine", "undecided: %s %s" % (type(e).__name__, e)))
    except Exception as e:
        res["fails"].append(("engine", "undecided: engine error %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])))
    res["models"] = [(o.name, o.input) for o in fails if o.input is not None][:6]
    res["called"] = sorted(d.called)
    res["assumed"] = sorted(d.used)
    res["queries"] = core.STATS.queries
    res["solver_time"] = round(core.STATS.time, 3)
    res["wall"] = round(time.time() - t0, 3)
    return res
