"""What contract files import.  The same contract text runs symbolically (in the prover) and
concretely (against the uninstrumented code)."""
SYM = False            # set by the prover


class Raises(Exception):
    """spec(): the call must raise an exception of class `kind` (by name, subclasses included;
    alternatives separated by '|'), with these attributes"""
    def __init__(self, kind="Exception", **fields):
        Exception.__init__(self, kind)
        self.kind, self.fields = kind, fields


class Reject(Exception):
    """the drawn input does not satisfy the precondition"""


class ContractFail(AssertionError):
    pass


def ensure(cond, name="postcondition"):
    if SYM:
        from . import core, vals
        if isinstance(cond, vals.SBool):
            core.cur().prove(cond.e, name)
            return
        if not cond:
            core.cur().fail(name, "refuted on this path")
        core.cur().obls.append(core.Obl(name, True, "path", 0.0))
        return
    if not cond:
        raise ContractFail(name)


def ensure_eq(a, b, name="postcondition"):
    if SYM:
        from . import rt
        return rt.prove_eq(a, b, name)
    from . import cworld
    d = cworld.diff(a, b)
    if d:
        raise ContractFail(name + ": " + d)


def cover(name):
    """this kind of behaviour must be reachable (guards against vacuous contracts)"""
    if SYM:
        from . import core
        core.cur().covers.append(name)


def _compile_struct(fmt, cache=None):
    """proved as C01 compile_struct: the Struct of that format, whatever the cache holds"""
    import struct
    if SYM:
        from . import rt
        return rt.mk_struct(fmt)
    return struct.Struct(fmt)


COMMON = {"javatools.pack:compile_struct": _compile_struct}


class Contract:
    prop = None
    name = None
    functions = ()          # "javatools.pack:BufferUnpacker.read" - proved by this contract
    summaries = None        # qual -> contract used instead of the body at call sites (None: the common ones)
    symbolic = True         # False: bounded concrete check only (never counted as proved)
    bound = None            # text: the symbolic run is bounded in this way (never counted as proved)
    unroll = 2
    concrete = True
    cases_quick = 150
    cases_thorough = 3000
    must_cover = ()
    budget = 200            # seconds of proof time
    maxpaths = 4000
    fresh_inputs = False    # draw the inputs twice, once for the code and once for the spec
    split_inst = True
    order_free = False      # the order of the result does not matter: sorting a symbolic sequence is left out
    look_back = None        # use that the iteration before the exit of a loop ran to its end: for loops, True: all, False: none
    fixed_cases = ()        # recorded input dicts always run concretely

    def inputs(self, w):
        return None

    def run(self, L, inp):
        raise NotImplementedError

    def spec(self, inp):
        raise NotImplementedError

    post = None             # post(inp, out) instead of spec

    def forms(self, w):
        return {}

    def callee(self, L, inp):
        """contracts of callees, depending on the input: {qual: function}"""
        return {}

    def setup(self, inp):
        """symbolic only: recursive definitions used by forms and spec"""


REGISTRY = []


def contract(cls):
    o = cls()
    if o.name is None:
        o.name = cls.__name__
    REGISTRY.append(o)
    return cls


def register(o):
    REGISTRY.append(o)
    return o


class Rec:
    """recursively defined state: at(0) = base, at(k+1) = step(k, at(k)).
    fields: {name: 'int' | 'bool' | 'str' | 'bytes'}; defined for k < size only, if given"""

    def __init__(self, name, fields, base, step, facts=None, size=None):
        self.name, self.fields, self.base, self.step = name, fields, base, step
        self.size = size
        self.memo = [base]
        self.facts = facts
        if SYM:
            from . import sworld
            self.impl = sworld.SymRec(self)

    def at(self, k):
        if SYM:
            return self.impl.at(k)
        while len(self.memo) <= k:
            self.memo.append(self.step(len(self.memo) - 1, self.memo[-1]))
        return self.memo[k]


def nonneg(n):
    from . import vals, core
    if isinstance(n, int):
        return max(n, 0)
    if core.cur().known(n.e >= 0):
        return n
    return vals.mkint(vals.z3.If(n.e > 0, n.e, vals.z3.IntVal(0)))


def table(n, get, kind=tuple):
    """the sequence get(0) .. get(n-1)"""
    if SYM:
        from . import vals, rt
        n = nonneg(n)
        s = vals.SSeq([vals.FS(n, get)], kind)
        return vals.mutable(s) if kind is list else s
    return kind(get(k) for k in range(n))


def flat(n, get, kind=tuple):
    """concatenation of the sequences get(0) .. get(n-1)"""
    if SYM:
        from . import vals, rt
        n = nonneg(n)
        s = vals.SSeq([vals.FM(n, get)], kind)
        return vals.mutable(s) if kind is list else s
    return kind(x for k in range(n) for x in get(k))


def exists(n, pred):
    if SYM:
        from . import rt
        return rt.exists(n, pred)
    return any(pred(k) for k in range(n))


def forall(n, pred):
    return not exists(n, lambda k: not pred(k))


def abstract(name, args, kind="int"):
    """symbolic only: an unknown function of these arguments (the same one wherever it is named)"""
    from . import sworld
    return sworld.SymWorld().fn(name, args, kind)


def assume(cond):
    """symbolic only: part of a callee's contract that the callee has been proved to meet"""
    from . import core
    if not cond:
        raise core.Infeasible()


def assume_forall(n, pred):
    """precondition: pred(k) for every k < n (concretely: part of the draw)"""
    if SYM:
        from . import rt, core

        def fact(k):
            if not pred(k):
                raise core.Infeasible()
        rt.add_forall(n, fact)
    elif not all(pred(k) for k in range(n)):
        raise Reject("precondition")


def symbolic():
    return SYM


def note(k):
    """make the universal facts known so far available at index k"""
    if SYM:
        from . import rt
        rt.add_index(k)


class Any:
    """does pred hold for one of 0 .. i-1?  at(i) is the bare truth value (for invariants); holds(n) also makes its
    meaning available.  pred must not branch."""
    def __init__(self, name, pred):
        self.pred = pred
        if SYM:
            from .vals import mkbool, zb, z3
            self.rec = Rec(name, {"any": "bool"}, {"any": False},
                           lambda k, st: {"any": mkbool(z3.Or(zb(st["any"]), zb(pred(k))))})

    def at(self, i):
        if SYM:
            return self.rec.at(i)["any"]
        return any(self.pred(k) for k in range(i))

    def some(self, n):
        """as holds, without naming an instance when there is one"""
        return self.holds(n, False)

    def holds(self, n, witness=True):
        if not SYM:
            return self.at(n)
        from . import rt, core
        r = self.at(n)
        if r and not witness:
            return True
        if r:
            # an instance exists, by definition
            if not (n > 0):
                raise core.Infeasible()
            w = rt.fresh_index(n)
            rt.add_index(w)
            if not self.pred(w):
                raise core.Infeasible()
            return True

        def fact(k):
            if self.pred(k):
                raise core.Infeasible()
        rt.add_forall(n, fact)
        return False


class DictForm:
    """symbolic only: the content of a dict with keys among `keys`: key t is present iff has(t), with value get(t).
    The order of the keys is left open."""
    def __init__(self, keys, has, get, ordered=False):
        self.universe, self._has, self._get, self.ordered = tuple(keys), has, get, ordered
        self.memo = {}
        self.order = None

    def canon(self, t):
        """(key of the universe equal to t,)"""
        for u in self.universe:
            if t is u:
                return (u,)
        for u in self.universe:
            if bool(u == t):
                return (u,)
        return None

    # as the abstract part of a dict
    def has(self, t):
        c = self.canon(t)
        if c is None:
            return False
        t = c[0]
        if ("has", t) not in self.memo:
            self.memo["has", t] = bool(self._has(t))
        return self.memo["has", t]

    def get(self, t):
        t = self.canon(t)[0]
        if ("get", t) not in self.memo:
            self.memo["get", t] = self._get(t)
        return self.memo["get", t]

    def keys(self):
        from . import core
        p = core.cur()
        if self.order is None:
            ks = [t for t in self.universe if self.has(t)]
            out = []
            while ks:
                out.append(ks.pop(p.choose(len(ks)) if len(ks) > 1 and not self.ordered else 0))
            self.order = tuple(out)
        return self.order

    def make(self):
        """a dict of this content"""
        from . import rt
        d = rt.mkdict([])
        self.pv_content(d)
        return d

    def pv_content(self, o):
        o.pv_restore(({}, (), DictForm(self.universe, self._has, self._get, self.ordered)))

    def pv_prove(self, a, name):
        from . import core, rt
        p = core.cur()
        if a.base is not None:
            if not isinstance(a.base, DictForm) or a.base.universe != self.universe:
                p.fail(name, "undecided: dict of another form")
            ks = [k for k, _v in a.log] + list(dict.keys(a))
        else:
            ks = a.keyitems()
        for k in ks:
            if self.canon(k) is None:
                p.fail(name, "refuted: unexpected key %r" % (k,))
        # one key at a time
        t = self.universe[p.choose(len(self.universe))]
        if self.has(t):
            if t not in a:
                p.fail(name, "refuted: no entry for %r" % (t,))
            rt.prove_eq(a[t], self.get(t), name + "[%r]" % (t,))
        elif t in a:
            p.fail(name, "refuted: entry for %r" % (t,))


class SetForm:
    """symbolic only: the content of a set of texts, by another set"""
    def __init__(self, members):
        self.members = members

    def has(self, x):
        from . import vals
        return vals.member(self.members, x)

    def seq(self):
        return self.members.seq()

    def pv_content(self, o):
        o.pv_restore((set(), (), self))

    def pv_prove(self, a, name):
        from . import core, vals
        p = core.cur()
        x = vals.SStr(vals.z3.String(p.fresh("member")))
        if bool(vals.member(a, x)) != bool(self.has(x)):
            p.fail(name, "refuted: the set is another one")
        p.obls.append(core.Obl(name, True, "evaluation", 0.0))
