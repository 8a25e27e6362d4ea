"""Path exploration, obligations and solver access of the deductive verifier."""
import contextlib, os, signal, time, itertools, subprocess, tempfile
import z3

I, S, Bo = z3.IntSort(), z3.StringSort(), z3.BoolSort()
BY = z3.DeclareSort("Bytes")
FL = z3.DeclareSort("Float")
OB = z3.DeclareSort("Obj")

RLIMIT_FORK = 3_000_000
RLIMIT_PROVE = 60_000_000
MAXPATHS = 6000
MAXDEPTH = 4000


class Ctl(BaseException):
    """engine control flow; BaseException so that the code under proof cannot catch it"""


class PathEnd(Ctl):
    pass


class Infeasible(Ctl):
    pass


class Failed(Ctl):
    """the current path has a recorded failed obligation"""


class Unsupported(Ctl):
    pass


class NeedLoop(Ctl):
    def __init__(self, key, locs, ncand, ninv):
        self.key, self.locs, self.ncand, self.ninv = key, locs, ncand, ninv


class NeedSym(Ctl):
    def __init__(self, key):
        self.key = key


class NewMod(Ctl):
    """a location written in a loop that is not yet in its frame"""
    def __init__(self, key, loc, cands=None):
        self.key, self.loc, self.cands = key, loc, cands


CUR = None      # the current Path


def cur():
    if CUR is None:
        raise RuntimeError("no path is being explored")
    return CUR


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.backends = {}
        self.retries = 0


STATS = Stats()


def _check(solver, rlimit):
    solver.set("rlimit", rlimit)
    t = time.time()
    r = solver.check()
    STATS.queries += 1
    STATS.time += time.time() - t
    return r


class Obl:
    __slots__ = ("name", "ok", "backend", "time", "reason", "model", "path", "loc", "input")

    def __init__(self, name, ok, backend, t, reason="", model=None, path=None):
        self.name, self.ok, self.backend, self.time, self.reason, self.model, self.path = \
            name, ok, backend, t, reason, model, path
        self.loc = None
        self.input = None


class Path:
    def __init__(self, driver, prefix):
        self.driver = driver
        self.prefix = list(prefix)
        self.dec = []
        self.forced = 0
        self.alts = []
        self._solver = None
        self.told = 0            # how much of pc the solver has seen
        self.pc = []
        self.names = {}
        self.journal = None      # (object, attribute, old value) of writes since the first loop record
        self.jseen = set()
        self.creating = 0        # making elements of symbolic sequences on demand
        self.lazy = set()
        self.joins = {}          # id of a text term -> (separator, sequence, term) it is the join of
        self.origin = {}         # id of an element made on demand -> (written elements of its sequence, index, element)
        self.loops = []          # active symbolic loop frames in their step phase
        self.loophist = []       # every symbolic loop frame entered on this path (step phase), for the contract
        self.oids = {}
        self.keep = []
        self.nextoid = 1
        self.obls = []
        self.fails = []
        self.entered = False
        self.succ = {}           # z3 ast id of `i+1` -> SInt i
        self.notes = []
        self.dead = False
        self.nreal = 0
        self.unit = {}           # memo per path
        self.indices = []
        self.foralls = []
        self.recs = []
        self.split_inst = driver.split_inst
        self.instdepth = 0
        self.deep = set()
        self.entered_set = set()
        self.locfail = None
        self.covers = []

    @property
    def solver(self):
        if self._solver is None:
            self._solver = z3.Solver()
            self._solver.set("random_seed", 1)
        if self.told < len(self.pc):
            self._solver.add(*self.pc[self.told:])
            self.told = len(self.pc)
        return self._solver

    # -- naming
    def fresh(self, hint="v"):
        k = self.names.get(hint, 0)
        self.names[hint] = k + 1
        return "%s!%d" % (hint, k) if k else hint

    # -- assumptions
    def assume(self, e):
        if e is True:
            return
        if e is False:
            raise Infeasible()
        self.pc.append(e)

    def feasible(self, e):
        self.solver.push()
        self.solver.add(e)
        r = _check(self.solver, RLIMIT_FORK)
        self.solver.pop()
        return r != z3.unsat

    # -- decisions
    def _next(self, kind):
        if len(self.dec) < len(self.prefix):
            d = self.prefix[len(self.dec)]
            if d[0] != kind:
                raise Unsupported("nondeterministic replay: expected %r, have decision %r" % (kind, d))
            return d
        return None

    def fork(self, e):
        if self.dead:
            raise PathEnd()
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        d = self._next("b")
        if d is None:
            if len(self.dec) > MAXDEPTH:
                raise Unsupported("path too deep")
            t = self.feasible(e)
            f = self.feasible(z3.Not(e))
            if t and f:
                v = True
                self.alts.append(self.dec + [("b", False, 1)])
                d = ("b", True, 1)
            elif t:
                d = ("b", True, 0)
            elif f:
                d = ("b", False, 0)
            else:
                raise Infeasible()
        v = d[1]
        self.dec.append(d)
        if d[2]:
            self.nreal += 1
        self.assume(e if v else z3.Not(e))
        return v

    def choose(self, n):
        """explore all n alternatives"""
        d = self._next("c")
        if d is None:
            for k in range(1, n):
                self.alts.append(self.dec + [("c", k)])
            d = ("c", 0)
        self.dec.append(d)
        self.nreal += 1
        return d[1]

    def known(self, e):
        """True/False if the path condition decides e, else None (no decision is recorded)"""
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if not self.feasible(z3.Not(e)):
            return True
        if not self.feasible(e):
            return False
        return None

    def unfold(self, i):
        for r in list(self.recs):
            r.unfold(i)

    # -- obligations
    def prove(self, goal, name, final=False):
        t0 = time.time()
        if goal is True:
            self.obls.append(Obl(name, True, "trivial", 0.0))
            return True
        if goal is False:
            goal = z3.BoolVal(False)
        g = z3.simplify(goal)
        if z3.is_true(g):
            self.obls.append(Obl(name, True, "simplify", 0.0))
            return True
        self.solver.push()
        self.solver.add(z3.Not(g))
        r = _check(self.solver, RLIMIT_PROVE)
        model = None
        reason = ""
        if r == z3.sat:
            model = self.solver.model()
        elif r == z3.unknown:
            reason = self.solver.reason_unknown()
        smt = None
        if r == z3.unknown:
            smt = self.solver.to_smt2()
        self.solver.pop()
        back = "z3"
        if r == z3.unknown:
            r, back = second_opinion(self.pc + [z3.Not(g)], smt)
        ok = (r == z3.unsat)
        o = Obl(name, ok, back, time.time() - t0,
                "" if ok else ("refuted" if r == z3.sat else "undecided: " + reason), None, None)
        if not ok:
            o.path = list(self.dec)
            o.model = model
            o.loc = self.locfail
            o.reason += "; goal: " + short(g) + "\n  path: " + "\n        ".join(short(p) for p in self.pc[-14:])
        self.obls.append(o)
        if not ok:
            self.fails.append(o)
            self.driver.on_fail(self, o)
            raise Failed()
        return True

    def fail(self, name, reason):
        o = Obl(name, False, "engine", 0.0, reason, None, list(self.dec))
        o.loc = self.locfail
        r = _check(self.solver, RLIMIT_PROVE)
        if r == z3.unsat:
            raise Infeasible()
        if r == z3.sat:
            o.model = self.solver.model()
            o.reason += "\n  path: " + "\n        ".join(short(p) for p in self.pc[-14:])
        self.obls.append(o)
        self.fails.append(o)
        self.driver.on_fail(self, o)
        raise Failed()

    # -- heap identity
    def newobj(self, o):
        self.oids[id(o)] = self.nextoid
        self.keep.append(o)
        self.nextoid += 1
        if self.creating:
            self.lazy.add(id(o))
        return o

    def oid(self, o):
        k = self.oids.get(id(o))
        if k is None:
            # an object from before this path (module state, class)
            st = self.driver.statics
            for j, x in enumerate(st):
                if x is o:
                    return -j - 1
            st.append(o)
            k = -len(st)
        return k

    def byoid(self, k):
        if k < 0:
            return self.driver.statics[-k - 1]
        for o in self.keep:
            if self.oids[id(o)] == k:
                return o
        raise Unsupported("lost object %r of %r" % (k, [(self.oids[id(o)], type(o).__name__) for o in self.keep]))

    def jmark(self):
        if self.journal is None:
            self.journal = []
        self.jseen = set()
        return len(self.journal)

    def rewind(self, mark):
        """undo the writes made since mark; gives what redoes them"""
        now, seen = [], set()
        for o, attr, _old in self.journal[mark:]:
            if (id(o), attr) not in seen:
                seen.add((id(o), attr))
                now.append((o, attr, jread(o, attr)))
        for o, attr, old in reversed(self.journal[mark:]):
            jwrite(o, attr, old)
        self.jseen = set()
        return now, len(self.journal)

    def replayed(self, st):
        now, n = st
        # whatever the replay wrote to older objects was put back by it or is overwritten here
        del self.journal[n:]
        for o, attr, v in now:
            jwrite(o, attr, v)
        self.jseen = set()

    def jot(self, o, attr):
        if self.journal is not None and not self.creating and (id(o), attr) not in self.jseen:
            self.jseen.add((id(o), attr))
            self.journal.append((o, attr, jread(o, attr)))

    def note_write(self, o, attr, old=None):
        if self.dead:
            return
        self.jot(o, attr)
        if id(o) in self.origin and not self.creating:
            w, j, _o = self.origin[id(o)]
            if not any(x is o for x, _j, _p in w):
                w.append((o, j, self))
        if not self.loops:
            return
        if id(o) in self.lazy and not self.creating:
            raise Unsupported("a loop changes the elements of a sequence")
        k = self.oids.get(id(o))
        if k is None:
            k = self.oid(o)
        for fr in self.loops:
            if k < fr.entry_oid and (k, attr) not in fr.modset:
                raise NewMod(list(fr.key), ("h", k, attr), fr.ctx.cands(("h", k, attr)))


MISSING = object()


def jread(o, attr):
    if attr is None:
        return o.pv_save()
    d = getattr(o, "__dict__", None)
    return d.get(attr, MISSING) if isinstance(d, dict) else getattr(o, attr, MISSING)


def jwrite(o, attr, v):
    if attr is None:
        o.pv_restore(v)
        return
    d = getattr(o, "__dict__", None)
    if isinstance(d, dict):
        if v is MISSING:
            d.pop(attr, None)
        else:
            d[attr] = v
    elif v is MISSING:
        delattr(o, attr)
    else:
        setattr(o, attr, v)


def short(e, n=400):
    s = str(e).replace("\n", " ")
    while "  " in s:
        s = s.replace("  ", " ")
    return s if len(s) <= n else s[:n] + "..."


def second_opinion(formulas, smt):
    """z3 said unknown: a fresh z3 with another seed, then cvc5"""
    STATS.retries += 1
    for seed in (7, 23):
        s = z3.Solver()
        s.set("random_seed", seed)
        s.set("rlimit", RLIMIT_PROVE * 2)
        s.add(*formulas)
        r = s.check()
        if r != z3.unknown:
            return r, "z3(seed %d)" % seed
    try:
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write("(set-logic ALL)\n" + smt)
            fn = f.name
        out = subprocess.run(["cvc5", "--tlimit=30000", "--strings-exp", fn], capture_output=True, text=True, timeout=60).stdout
        os.unlink(fn)
        if out.startswith("unsat"):
            return z3.unsat, "cvc5"
        if out.startswith("sat"):
            return z3.sat, "cvc5"
    except Exception:
        pass
    return z3.unknown, "z3+cvc5"


class Result:
    def __init__(self):
        self.obls = []
        self.fails = []
        self.paths = 0
        self.covers = {}
        self.notes = []

    def merge(self, r):
        self.obls += r.obls
        self.fails += r.fails
        self.paths += r.paths
        for k, v in r.covers.items():
            self.covers[k] = self.covers.get(k, 0) + v
        self.notes += r.notes


@contextlib.contextmanager
def limited(seconds):
    """a counter-model may describe an input too large to write out"""
    def late(_sig, _frame):
        raise TimeoutError("a counter-model too large")
    old = signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Driver:
    """explores every path of `body(path)`"""

    def __init__(self, body, name="", deadline=None, before=None, forms=None, summaries=None, entry=(), unroll=2,
                 maxpaths=MAXPATHS, split_inst=True):
        self.body = body
        self.name = name
        self.syms = set()
        self.irregular = set()
        self.look_back = None
        self.order_free = False
        self.total = 0
        self.deadline = deadline
        self.before = before
        self.models = []
        self.forms = forms or {}
        self.summaries = summaries or {}
        self.entry = set(entry)
        self.called = set()
        self.used = set()
        self.unroll = unroll
        self.maxpaths = maxpaths
        self.split_inst = split_inst
        self.frames = {}
        self.strides = {}
        self.statics = []
        self.concretize = None
        self.debug = os.environ.get("PV_DEBUG")

    def on_fail(self, path, obl):
        if obl.model is not None and self.concretize:
            try:
                with limited(8):
                    c = self.concretize(path, obl.model)
                if c is not None:
                    obl.input = c
            except Exception as ex:         # a counter-model that cannot be turned into an input
                if self.debug:
                    print("concretize:", type(ex).__name__, ex)

    def run(self):
        return self.explore([])

    def run_path(self, prefix):
        global CUR
        if self.deadline and time.time() > self.deadline:
            raise TimeoutError("proof time budget exhausted in %s" % self.name)
        self.total += 1
        if self.total > self.maxpaths:
            raise TimeoutError("more than %d paths in %s" % (self.maxpaths, self.name))
        if self.before:
            self.before()
        p = Path(self, prefix)
        saved, CUR = CUR, p
        out = None

        def undecided(msg, loc=None):
            o = Obl("supported", False, "engine", 0.0, "undecided: outside the verifier's reach: " + msg, None, list(p.dec))
            o.loc = loc
            p.obls.append(o)
            p.fails.append(o)
        try:
            self.body(p)
        except (PathEnd, Infeasible, Failed) as e:
            out = type(e).__name__
        except (NeedLoop, NeedSym, NewMod) as e:
            out = e
        except Unsupported as e:
            msg = str(e)
            if self.debug:
                import traceback
                traceback.print_exc()
            undecided(msg, getattr(e, "loc", None) and (e.loc, "poison"))
            out = "Unsupported"
        except RecursionError as e:
            undecided("recursion without contract")
            out = "Unsupported"
        finally:
            p.dead = True
            CUR = saved
        return p, out

    def explore(self, prefix, discover=False):
        res = Result()
        stack = [list(prefix)]

        def needsym(e, p):
            if len(e.key) < len(prefix):
                raise e
            k = list(e.key)
            self.syms.add(tuple(k))
            stack[:] = [x for x in stack if x[:len(k)] != k]
            stack.extend(a for a in p.alts if a[:len(k)] != k)
            stack.append(k)

        while stack:
            pre = stack.pop()
            p, out = self.run_path(pre)
            if isinstance(out, NewMod):
                raise out
            if isinstance(out, NeedSym):
                needsym(out, p)
                continue
            if isinstance(out, NeedLoop):
                try:
                    asg, r = self.solve_loop(list(out.key))
                except NeedSym as e:
                    needsym(e, p)
                    continue
                stack += p.alts
                res.merge(r)
                if asg is not None and not r.fails:
                    stack.append(list(out.key) + [("L", asg, "exit")])
                if len(res.fails) >= 3:
                    break
                continue
            stack += p.alts
            res.paths += 1
            if out != "Infeasible" or p.fails:
                res.obls += p.obls
                res.fails += p.fails
            for c in p.covers:
                res.covers[c] = res.covers.get(c, 0) + 1
            if len(res.fails) >= 3:
                # inside a loop body whose frame may be incomplete, look on for further modified locations
                if discover and len(res.fails) < (12 if any(f.loc is not None for f in res.fails) else 40):
                    continue
                break
        return res

    def solve_loop(self, key):
        """find the frame and an invariant of the loop reached by `key`: (assignment, obligations)"""
        tkey = tuple(map(repr, key))
        fr = self.frames.setdefault(tkey, {})      # loc -> [cands left]
        full = {}
        best = None
        for attempt in range(80):
            asg = tuple((loc, c[0]) for loc, c in fr.items())
            if self.debug:
                print("loop", self.name, len(key), asg)
            try:
                r = self.explore(key + [("L", asg, "init")])
                if not r.fails:
                    r2 = self.explore(key + [("L", asg, "step")], True)
                    r.merge(r2)
            except NewMod as e:
                if list(e.key) != list(key):
                    raise
                if e.loc in fr:
                    raise Unsupported("location %r modified twice" % (e.loc,))
                fr[e.loc] = list(e.cands)
                # what was rejected so far was rejected with an incomplete frame
                for l in full:
                    fr[l] = list(full[l])
                full[e.loc] = list(e.cands)
                continue
            if not r.fails:
                return asg, r
            if best is None:
                best = r
            # move to another candidate of the location that failed
            loc = None
            for f in r.fails:
                if f.loc is not None and f.loc[0] in fr and len(fr[f.loc[0]]) > 1 and fr[f.loc[0]][0] == f.loc[1]:
                    loc = f.loc[0]
                    break
            if self.debug:
                for f in r.fails:
                    print("   failed:", f.name, f.loc, f.reason[:600])
            if loc is None:
                # a failure elsewhere: weaken what is left, last location first
                for kind in ("poison", "unchanged", "count"):
                    for l in reversed(list(fr)):
                        if loc is None and len(fr[l]) > 1 and fr[l][0] == kind:
                            loc = l
            if loc is None:
                return asg, r
            fr[loc].pop(0)
        return None, best
