"""Symbolic inputs for contracts."""
import z3
from . import core, vals, rt
from .core import cur, Infeasible, Unsupported
from .vals import *
from .cworld import Source


class SymWorld:
    sym = True

    def __init__(self):
        self.idx = []
        self.pre = ""

    def _c(self, name, sort):
        name = self.pre + name
        if not self.idx:
            return z3.Const(name, sort)
        f = z3.Function(name, *([core.I] * len(self.idx) + [sort]))
        return f(*[zi(k) for k in self.idx])

    def once(self, t, e):
        p = cur()
        k = ("in", t.get_id())
        if k not in p.unit:
            p.unit[k] = t
            p.assume(e)

    def int(self, name, lo=None, hi=None):
        t = self._c(name, core.I)
        c = []
        if lo is not None:
            c.append(t >= zi(lo))
        if hi is not None:
            c.append(t <= zi(hi))
        if c:
            self.once(t, z3.And(*c))
        return SInt(t)

    def len(self, name, lo=0, hi=None):
        return self.int(name, lo, hi)

    def nat(self, name, hi=None):
        return self.int(name, 0, hi)

    def u1(self, name):
        return self.int(name, 0, 255)

    def u2(self, name):
        return self.int(name, 0, 65535)

    def u4(self, name):
        return self.int(name, 0, 2 ** 32 - 1)

    def word(self, name, n=16):
        """an unsigned word whose bits are looked at one by one"""
        p = cur()
        k = ("word", self.pre + name, tuple(self.idx))
        if k not in p.unit:
            p.unit[k] = Word(self.pre + name, n, self.int(name, 0, 2 ** n - 1).e)
        return p.unit[k]

    def bool(self, name):
        return SBool(self._c(name, core.Bo))

    def str(self, name, alpha=None, lo=0, hi=None, gen=None):
        t = self._c(name, core.S)
        c = []
        if lo:
            c.append(z3.Length(t) >= lo)
        if hi is not None:
            c.append(z3.Length(t) <= hi)
        if c:
            self.once(t, z3.And(*c))
        return SStr(t)

    def bstr(self, name, alpha=None, lo=0, hi=None):
        t = self._c(name, core.S)
        return SStr(t, True)

    def bytes(self, name, lo=0, hi=None, gen=None):
        b = self._c(name, core.BY)
        n = self.int(name + ".len", lo, hi)
        return SBytes(b, 0, n)

    def opaque(self, name, small=3):
        return SOpq(self._c(name, core.OB))

    def choice(self, name, opts):
        k = self.int(name, 0, len(opts) - 1)
        if not self.idx:
            # a scalar drawn once: enumerate without asking the solver
            p = cur()
            key = ("choice", name)
            if key not in p.unit:
                p.unit[key] = p.choose(len(opts))
                p.assume(k.e == p.unit[key])
            return opts[p.unit[key]]
        for j in range(len(opts) - 1):
            if k == j:
                return opts[j]
        return opts[-1]

    def seq(self, name, elem, lo=0, hi=None, kind=tuple):
        n = self.len(name + ".n", lo, hi)
        idx, pre = list(self.idx), self.pre + name + "."

        def get(k):
            save, self.idx, self.pre = (self.idx, self.pre), idx + [k], pre
            try:
                return elem(self, k)
            finally:
                self.idx, self.pre = save
        s = SSeq([FS(n, get)], kind)
        return mutable(s) if kind is list else s

    def names(self, name, lo=0, gen=None):
        """a sequence of texts, possibly repeated; the index of the first occurrence of any text is a function"""
        n = self.len(name + ".n")
        get = z3.Function(name + ".text", core.I, core.S)
        first = z3.Function(name + ".first", core.S, core.I)
        n0 = zi(n)

        def pos(x):
            p, e = cur(), zs(x)
            t = first(e)
            key = ("pos", name, e.get_id())
            if key not in p.unit:
                p.unit[key] = e
                # the definition: -1, or an index where it occurs
                p.assume(z3.Or(t == -1, z3.And(t >= 0, t < n0, get(t) == e)))
            return t

        def elem(k):
            p = cur()
            e = get(zi(k))
            x = SStr(e)
            t = pos(x)
            p.assume(z3.Implies(z3.And(zi(k) >= 0, zi(k) < n0), z3.And(t >= 0, t <= zi(k))))
            if lo:
                p.assume(z3.Length(e) >= lo)
            return x
        return SSeq([FS(n, elem, pos)])

    def free_of(self, text, chars, nonempty=False):
        """precondition: the text contains none of these characters"""
        from . import vals
        vals.mark_free(text.e, chars, nonempty)
        return text

    def require(self, cond):
        if not cond:
            raise Infeasible()

    def fn(self, name, args, kind="bool"):
        ss, ts = [], []
        for a in args:
            if isinstance(a, (bool, SBool)):
                ss.append(core.Bo); ts.append(zb(a))
            elif isint(a):
                ss.append(core.I); ts.append(zi(a))
            elif isstr(a):
                ss.append(core.S); ts.append(zs(a))
            elif isinstance(a, SOpq):
                ss.append(core.OB); ts.append(a.e)
            elif a is None:
                ss.append(core.S); ts.append(z3.StringVal("None"))
            else:
                raise Unsupported("function argument %r" % (a,))
        out = {"bool": core.Bo, "int": core.I, "opaque": core.OB, "str": core.S, "bytes": core.S}[kind]
        t = z3.Function(name, *(ss + [out]))(*ts) if ts else z3.Const(name, out)
        return {"bool": SBool, "int": SInt, "opaque": SOpq, "str": SStr, "bytes": lambda e: SStr(e, True)}[kind](t)


class ModelSource(Source):
    """values of the input symbols in a counter-model"""
    def __init__(self, model):
        self.m = model
        self.drawn = 0

    def count(self, n):
        self.drawn += n
        if self.drawn > 20000:
            raise ValueError("too long")

    def ev(self, key, sort):
        import re
        self.count(1)
        m = re.fullmatch(r"(.*?)((?:\[\d+\])*)", key)
        name, ix = m.group(1), [int(x) for x in re.findall(r"\[(\d+)\]", m.group(2))]
        if ix:
            f = z3.Function(name, *([core.I] * len(ix) + [sort]))
            t = f(*[z3.IntVal(x) for x in ix])
        else:
            t = z3.Const(name, sort)
        return self.m.eval(t, model_completion=True)

    def int(self, key, lo, hi):
        v = self.ev(key, core.I).as_long()
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            v = lo if lo is not None else hi
        return v

    len = int

    def bool(self, key):
        return z3.is_true(self.ev(key, core.Bo))

    def str(self, key, alpha, lo, hi):
        return zstr_py(self.ev(key, core.S))

    def choice(self, key, n):
        return self.int(key, 0, n - 1)

    def bytes(self, key, lo, hi):
        base = self.ev(key, core.BY)
        n = self.int_len(key, lo, hi)
        self.count(n)
        return bytes(self.m.eval(vals.BYTE(base, z3.IntVal(i)), model_completion=True).as_long() & 255 for i in range(n))

    def int_len(self, key, lo, hi):
        import re
        m = re.fullmatch(r"(.*?)((?:\[\d+\])*)", key)
        return self.int(m.group(1) + ".len" + m.group(2), lo, hi)


_SORT = {"int": core.I, "bool": core.Bo, "str": core.S, "bytes": core.S, "obj": core.OB}


class SymRec:
    def __init__(self, rec):
        self.r = rec
        self.done = {}
        p = cur()
        p.recs.append(self)
        nm = p.fresh("rec." + rec.name)
        self.f = {k: z3.Function("%s.%s" % (nm, k), core.I, _SORT[s]) for k, s in rec.fields.items()}
        self.eq(self.raw(0), rec.base)
        if rec.facts:
            self.lemma()

    def wrap(self, k, t):
        return {"int": SInt, "bool": SBool, "str": SStr, "bytes": lambda e: SStr(e, True), "obj": SOpq}[self.r.fields[k]](t)

    def raw(self, i):
        return {k: self.wrap(k, f(zi(i))) for k, f in self.f.items()}

    def at(self, i):
        if isinstance(i, int) and i == 0:
            return dict(self.r.base)
        if isinstance(i, int) and 0 < i <= 8:
            for k in range(i):
                self.unfold(k)
        return self.fact(i, self.raw(i))

    def eq(self, a, b):
        p = cur()
        for k in self.r.fields:
            x, y = a[k], b[k]
            t = self.r.fields[k]
            if t == "int":
                p.assume(zi(x) == zi(y))
            elif t == "bool":
                p.assume(zb(x) == zb(y) if isinstance(y, (bool, SBool)) else zb(x) == z3.BoolVal(bool(y)))
            elif t == "obj":
                p.assume(x.e == y.e)
            else:
                p.assume(zs(x) == zs(y))

    def unfold(self, i):
        """assume at(i+1) == step(i, at(i))"""
        key = i.e.get_id() if isinstance(i, SInt) else i
        if key in self.done:
            return
        if self.r.size is not None and not cur().known(z3.And(zi(i) >= 0, zi(i) < zi(self.r.size))):
            return
        self.done[key] = i
        st = self.r.step(i, self.at(i))
        i1 = i + 1
        self.eq(self.raw(i1), st)

    def fact(self, i, st):
        if self.r.facts and self.proved:
            key = ("f", i.e.get_id() if isinstance(i, SInt) else i)
            if key not in self.done:
                p = cur()
                if p.known(z3.And(zi(i) >= 0, zi(i) <= zi(self.r.size)) if self.r.size is not None else zi(i) >= 0):
                    self.done[key] = i
                    p.assume(tb(self.r.facts(i, st)))
        return st

    proved = False

    def lemma(self):
        """prove the facts by induction once per path, on side branches"""
        p = cur()
        c = p.choose(3)
        if c == 0:
            p.prove(tb(self.r.facts(0, self.r.base)), "lemma %s (base)" % self.r.name)
            raise core.PathEnd()
        if c == 1:
            i = SInt(z3.Int(p.fresh("ind")))
            p.assume(i.e >= 0)
            if self.r.size is not None:
                p.assume(i.e < zi(self.r.size))
            st = self.raw(i)
            p.assume(tb(self.r.facts(i, st)))
            nx = self.r.step(i, st)
            p.prove(tb(self.r.facts(i + 1, nx)), "lemma %s (step)" % self.r.name)
            raise core.PathEnd()
        self.proved = True
