"""The runtime `_pv` the instrumented code calls."""
import struct as _struct, builtins, functools, itertools, operator, re, collections, copy, types
import z3
from . import core, vals
from .core import Ctl, PathEnd, Infeasible, Failed, Unsupported, NeedLoop, NeedSym, NewMod, cur
from .vals import *
from .vals import core_len


# ================================================================ quantified facts

def add_index(k):
    """a term at which recorded universal facts are instantiated"""
    p = cur()
    p.indices.append(k)
    if p.instdepth:
        # found while looking into an instance: of no use to facts it need not concern
        p.deep.add(k.e.get_id() if isinstance(k, SInt) else k)
    for f in list(p.foralls):
        _inst(f, k)


def add_forall(n, fn, name=""):
    """fn(k) assumes the fact for k (0 <= k < n)"""
    p = cur()
    f = (n, fn, {})
    p.foralls.append(f)
    for k in list(p.indices):
        _inst(f, k)


def _inst(f, k):
    p = cur()
    n, fn, done = f
    if isinstance(k, SInt):
        key = k.e.get_id()
    else:
        key = k
    if key in done:
        return
    kn = p.known(z3.And(zi(k) >= 0, zi(k) < zi(n)))
    if kn or kn is None and isinstance(n, SInt) and p.split_inst and not p.instdepth and key not in p.deep and \
            p.fork(z3.And(zi(k) >= 0, zi(k) < zi(n))):
        # split where relevant only on one side: keeps the instance usable on the other
        done[key] = k
        p.instdepth += 1
        try:
            fn(k)
        finally:
            p.instdepth -= 1


def truth(x):
    return bool(x)


def fresh_index(n, hint="w"):
    p = cur()
    w = SInt(z3.Int(p.fresh(hint)))
    p.assume(z3.And(w.e >= 0, w.e < zi(n)))
    return w


def exists(n, pred):
    """is there k < n with pred(k)?  decided by case split: a witness, or a universal fact"""
    p = cur()
    if isinstance(n, int):
        for k in range(n):
            if pred(k):
                return True
        return False
    # known witnesses first keep the case split small
    if p.fork(z3.Bool(p.fresh("exists"))):
        if not (n > 0):
            raise Infeasible()
        w = fresh_index(n)
        add_index(w)
        if not pred(w):
            raise Infeasible()
        return True

    def fact(k):
        if pred(k):
            raise Infeasible()
    add_forall(n, fact)
    return False


def forall(n, pred):
    return not exists(n, lambda k: not pred(k))


def seq_any(s, f=None):
    s = SSeq.of(s)
    for seg in s.segs:
        if isinstance(seg, Items):
            for x in seg.l:
                if (f(x) if f else x):
                    return True
        elif isinstance(seg, FS):
            if exists(seg.n, lambda k: bool(f(seg.get(k)) if f else seg.get(k))):
                return True
        elif isinstance(seg, FM):
            if exists(seg.n, lambda k: seq_any(seg.g(k), f)):
                return True
        else:
            raise Unsupported("look at a list under construction")
    return False


# ================================================================ equality

def isobj(x):
    return not isinstance(x, (Sym, int, str, bytes, float, tuple, list, dict, set, frozenset, type(None), type))


def eqf(a, b):
    """`a == b` as python evaluates it: bool or SBool; structural parts may fork"""
    if isinstance(a, Poison) or isinstance(b, Poison):
        a._no() if isinstance(a, Poison) else b._no()
    if a is b and not isinstance(a, (float, SFloat)):
        return True
    if isinstance(a, (SSeq, PList, tuple, list)) and isinstance(b, (SSeq, PList, tuple, list)):
        ka = seqkind(a)
        kb = seqkind(b)
        if ka is not kb:
            return False
        sa, sb = SSeq.of(a), SSeq.of(b)
        if sa.native() and sb.native():
            la, lb = sa.items(), sb.items()
            if len(la) != len(lb):
                return False
            r = True
            for x, y in zip(la, lb):
                e = eqf(x, y)
                if e is False:
                    return False
                if e is not True:
                    r = e if r is True else mkbool(z3.And(zb(r), zb(e)))
            return r
        # lengths, then a differing index
        la, lb = sa.length(), sb.length()
        if not (la == lb):
            return False
        return not exists(la, lambda k: not eqf(sa.index(k), sb.index(k)))
    if isinstance(a, PDict) or isinstance(b, PDict):
        return dict_eq(a, b)
    if isobj(a) and isinstance(b, Sym):
        r = NotImplemented if type(a).__eq__ is object.__eq__ else a.__eq__(b)
        return False if r is NotImplemented else r
    if isinstance(a, Sym) and isobj(b):
        r = NotImplemented if type(b).__eq__ is object.__eq__ else b.__eq__(a)
        return False if r is NotImplemented else r
    if isinstance(a, Sym) and not isinstance(a, SSeq):
        r = a.__eq__(b)
        return False if r is NotImplemented else r
    if isinstance(a, SSeq) or isinstance(b, SSeq):
        return False
    if isinstance(b, Sym):
        r = b.__eq__(a)
        return False if r is NotImplemented else r
    if type(a).__eq__ is object.__eq__ and same_element(a, b) is not None:
        return same_element(a, b)
    r = a == b
    return r


def seqkind(x):
    if isinstance(x, SSeq):
        return x.kind
    return list if isinstance(x, list) else tuple


def dict_eq(a, b):
    if not isinstance(a, dict) or not isinstance(b, dict):
        return False
    for d in (a, b):
        if isinstance(d, PDict) and d.base is not None:
            raise Unsupported("equality of abstract dicts")
    ka = a.keyitems() if isinstance(a, PDict) else list(a)
    kb = b.keyitems() if isinstance(b, PDict) else list(b)
    if len(ka) != len(kb):
        return False
    if isinstance(a, POrdered) and isinstance(b, POrdered):
        for x, y in zip(ka, kb):
            if not eqf(x, y):
                return False
    for k in ka:
        if not contains(b, k):
            return False
        if not eqf(getitem(a, k), getitem(b, k)):
            return False
    return True


def contains(c, x):
    """`x in c`: bool or SBool"""
    if isinstance(c, SStr):
        return c.contains(x)
    if isinstance(c, (str, bytes)):
        if isinstance(x, SStr):
            return mkbool(z3.Contains(zs(c), x.e))
        if isinstance(x, Sym):
            r = False
            for y in c:
                r = mkbool(z3.Or(zb(r), zb(eqf(y, x))))
            return r
        return x in c
    if isinstance(c, PDict):
        return c.lookup(x)[0]
    if isinstance(c, PSet):
        return c.has(x)
    if isinstance(c, (SSeq, PList)):
        s = SSeq.of(c)
        if s.native():
            c = s.items()
        else:
            if len(s.segs) == 1 and isinstance(s.segs[0], FS) and s.segs[0].pos and isstr(x):
                t = s.segs[0].pos(x)
                return mkbool(z3.And(t >= 0, t < zi(s.segs[0].n)))
            return seq_any(s, lambda y: eqf(y, x))
    if isinstance(c, range) and isinstance(x, SInt):
        if c.step == 1:
            return mkbool(z3.And(x.e >= c.start, x.e < c.stop))
        return mkbool(z3.And(x.e >= c.start, x.e < c.stop, (x.e - c.start) % c.step == 0))
    if isinstance(c, SRange):
        return mkbool(z3.And(zi(x) >= zi(c.a), zi(x) < zi(c.b)))
    if isinstance(c, (tuple, list, set, frozenset, dict)) or isinstance(c, (type({}.keys()), type({}.values()))):
        if concrete(x) and not any(isinstance(y, Sym) or isinstance(y, tuple) for y in c):
            return x in c
        r = False
        for y in c:
            e = True if y is x else eqf(y, x)
            if e is True:
                return True
            if e is not False:
                r = mkbool(z3.Or(zb(r), zb(e)))
        return r
    if isinstance(c, GenIter):
        return contains(c.seq(), x)
    return x in c


# ================================================================ proving equality

def prove_eq(a, b, name):
    """obligations: a and b are the same value (functional equality, not ==)"""
    p = cur()
    if isinstance(a, Poison) or isinstance(b, Poison):
        p.fail(name, "undecided: value unknown after the loop")
    if isinstance(a, GenIter):
        a = a.seq()
    if isinstance(b, GenIter):
        b = b.seq()
    if a is b:
        return
    if isinstance(a, (SSeq, PList)) or isinstance(b, (SSeq, PList)) or (isinstance(a, (tuple, list)) and isinstance(b, (tuple, list))):
        if not isinstance(a, (SSeq, list, tuple)) or not isinstance(b, (SSeq, list, tuple)):
            p.fail(name, "refuted: %s against %s" % (type(a).__name__, type(b).__name__))
        if seqkind(a) is not seqkind(b):
            p.fail(name, "refuted: a %s where a %s is expected" % (seqkind(a).__name__, seqkind(b).__name__))
        return prove_seq(SSeq.of(a), SSeq.of(b), name)
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return p.prove(zb(a) == zb(b), name)
    if isint(a) and isint(b):
        return p.prove(zi(a) == zi(b), name)
    if isinstance(a, SRope) or isinstance(b, SRope):
        return (a if isinstance(a, SRope) else b).pv_eq(b if isinstance(a, SRope) else a, name)
    if isinstance(a, SBytes) or isinstance(b, SBytes):
        return prove_bytes(a, b, name)
    if isinstance(a, SStr) or isinstance(b, SStr):
        if not isstr(a) or not isstr(b):
            p.fail(name, "refuted: %r against %r" % (a, b))
        return prove_text(zs(a), zs(b), name)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, float) and x != x and isinstance(y, SFloat):
            # one NaN is as good as another
            return p.prove(z3.Not(zb(y == y)), name)
    if isinstance(a, SFloat) or isinstance(b, SFloat):
        if not (isinstance(a, SFloat) and isinstance(b, SFloat)):
            p.fail(name, "refuted: %r against %r" % (a, b))
        return p.prove(a.e == b.e, name)
    if isinstance(a, SOpq) or isinstance(b, SOpq):
        if not (isinstance(a, SOpq) and isinstance(b, SOpq)):
            p.fail(name, "refuted: %r against %r" % (a, b))
        return p.prove(a.e == b.e, name)
    if isinstance(a, dict) and isinstance(b, dict):
        ka = SSeq([Items(a.keyitems() if isinstance(a, PDict) else list(a))])
        kb = SSeq([Items(b.keyitems() if isinstance(b, PDict) else list(b))])
        if len(ka.items()) != len(kb.items()):
            p.fail(name, "refuted: dict sizes %d and %d" % (len(ka.items()), len(kb.items())))
        for k in kb.items():
            if not contains(a, k):
                p.fail(name, "refuted: key %r is missing" % (k,))
            prove_eq(getitem(a, k), getitem(b, k), name + "[%r]" % (k,))
        return
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        la, lb = list(a), list(b)
        if len(la) != len(lb):
            p.fail(name, "refuted: set sizes differ")
        for x in la:
            if not contains(b, x):
                p.fail(name, "refuted: %r is not expected" % (x,))
        return
    if hasattr(a, "pv_eq"):
        return a.pv_eq(b, name)
    if hasattr(b, "pv_eq"):
        return b.pv_eq(a, name)
    if type(a) is type(b) and a == b:
        p.obls.append(core.Obl(name, True, "evaluation", 0.0))
        return
    if isinstance(a, (int, str, bytes)) and isinstance(b, (int, str, bytes)) and a == b and type(a) is type(b):
        return
    if type(a).__eq__ is object.__eq__ and same_element(a, b) is not None:
        return p.prove(zb(same_element(a, b)), name)
    p.fail(name, "refuted: %r where %r is expected" % (a, b))


def prove_bytes(a, b, name):
    p = cur()
    if isinstance(a, (bytes, bytearray)) or isinstance(b, (bytes, bytearray)):
        if isinstance(a, (bytes, bytearray)):
            a, b = b, a
        if not isinstance(a, SBytes):
            p.fail(name, "refuted: %r against %r" % (a, b))
        p.prove(zi(a.n) == len(b), name + " (length)")
        for k, c in enumerate(b):
            p.prove(zi(a.at(k)) == c, name + " (byte)")
        return
    if not (isinstance(a, SBytes) and isinstance(b, SBytes)):
        p.fail(name, "refuted: %r against %r" % (a, b))
    p.prove(zi(a.n) == zi(b.n), name + " (length)")
    if a.base.eq(b.base):
        p.prove(z3.Or(zi(a.n) == 0, zi(a.off) == zi(b.off)), name + " (position)")
        return
    if p.choose(2) == 0:
        if not (a.n > 0):
            raise PathEnd()
        k = fresh_index(a.n)
        add_index(k)
        p.prove(zi(a.at(k)) == zi(b.at(k)), name + " (bytes)")
        raise PathEnd()


def prove_seq(a, b, name):
    p = cur()
    sa, sb = list(a.segs), list(b.segs)
    tail = 0
    while sa or sb:
        x = sa[0] if sa else None
        y = sb[0] if sb else None
        if isinstance(x, Items) and isinstance(y, Items):
            m = min(len(x.l), len(y.l))
            for k in range(m):
                prove_eq(x.l[k], y.l[k], name + "[.]")
            sa[0:1] = [Items(x.l[m:])] if len(x.l) > m else []
            sb[0:1] = [Items(y.l[m:])] if len(y.l) > m else []
            continue
        if isinstance(x, Unknown) or isinstance(y, Unknown):
            p.fail(name, "undecided: list under construction")
        if isinstance(x, (FS, FM)) and isinstance(y, (FS, FM)) and (isinstance(x, FM) or isinstance(y, FM)):
            # the longer one by a single step
            for p1, q1, long in ((x, y, sb), (y, x, sa)):
                if p.known(zi(q1.n) == zi(p1.n) + 1):
                    if isinstance(q1, FM):
                        long[0:1] = [FM(p1.n, q1.g)] + list(SSeq.of(q1.g(p1.n)).segs)
                    else:
                        long[0:1] = [FS(p1.n, q1.get), Items([q1.get(p1.n)])]
                    break
            x, y = sa[0], sb[0]
        if isinstance(x, (FS, FM)) and isinstance(y, (FS, FM)):
            if x.n is y.n or p.known(zi(x.n) == zi(y.n)) or len(sa) == len(sb) == 1 and (isinstance(x, FM) or isinstance(y, FM)):
                p.prove(zi(x.n) == zi(y.n), name + " (number of elements)")
                if type(x) is type(y) and (x.get is y.get if isinstance(x, FS) else x.g is y.g):
                    sa.pop(0)
                    sb.pop(0)
                    continue
                # elements at an arbitrary position
                if p.choose(2) == 0:
                    if not (x.n > 0):
                        raise PathEnd()
                    k = fresh_index(x.n, "k")
                    add_index(k)
                    if isinstance(x, FS) and isinstance(y, FS):
                        prove_eq(x.get(k), y.get(k), name + "[k]")
                    else:
                        gx = x.g(k) if isinstance(x, FM) else SSeq([Items([x.get(k)])])
                        gy = y.g(k) if isinstance(y, FM) else SSeq([Items([y.get(k)])])
                        prove_seq(gx, gy, name + "[k]")
                    raise PathEnd()
                sa.pop(0)
                sb.pop(0)
                continue
        # a known small number of iterations
        done = False
        if (isinstance(x, FM) or x is None or isinstance(x, Items)) and (isinstance(y, FM) or y is None or isinstance(y, Items)):
            for z in (sa, sb):
                if z and isinstance(z[0], FM) and not done:
                    for c in range(4):
                        if p.known(zi(z[0].n) == c):
                            z[0:1] = [g for k in range(c) for g in SSeq.of(z[0].g(k)).segs]
                            done = True
                            break
        if done:
            continue
        # a filtered sequence against elements: unfold from its end
        for p1, q1 in ((sa, sb), (sb, sa)):
            if len(q1) == 1 and isinstance(q1[0], FM) and len(p1) == 1 and isinstance(p1[0], Items) and tail < 4 and \
                    p.known(zi(q1[0].n) > 0):
                m = mkint(zi(q1[0].n) - 1)
                q1[0:1] = [FM(m, q1[0].g)] + list(SSeq.of(q1[0].g(m)).segs)
                tail += 1
                while p1 and len(q1) > 1 and isinstance(q1[-1], Items):
                    u, v = p1[0].l, q1[-1].l
                    m = min(len(u), len(v))
                    for k in range(m):
                        prove_eq(*((u[len(u) - 1 - k], v[len(v) - 1 - k])), name=name + "[.]")
                    p1[0:1] = [Items(u[:len(u) - m])] if len(u) > m else []
                    q1[-1:] = [Items(v[:len(v) - m])] if len(v) > m else []
                break
        else:
            tail = 99
        if tail < 99:
            continue
        if sa and sb and isinstance(sa[-1], Items) and isinstance(sb[-1], Items) and \
                any(isinstance(s, FM) for s in sa + sb):
            # from the end
            u, v = sa[-1].l, sb[-1].l
            m = min(len(u), len(v))
            for k in range(m):
                prove_eq(u[len(u) - 1 - k], v[len(v) - 1 - k], name + "[.]")
            sa[-1:] = [Items(u[:len(u) - m])] if len(u) > m else []
            sb[-1:] = [Items(v[:len(v) - m])] if len(v) > m else []
            continue
        # different shapes: compare by length and arbitrary index
        ra, rb = SSeq(sa), SSeq(sb)
        try:
            la, lb = ra.length(), rb.length()
        except Unsupported as ex:
            # sequences that may be empty
            for z in (sa, sb):
                for s in z:
                    if isinstance(s, Items):
                        p.fail(name, "refuted: sequence shapes differ (%r against %r)" % (ra, rb))
            for z in (ra, rb):
                if z.nonempty():
                    p.fail(name, "refuted: sequence shapes differ (%r against %r)" % (ra, rb))
            return
        p.prove(zi(la) == zi(lb), name + " (length)")
        if p.choose(2) == 0:
            if not (la > 0):
                raise PathEnd()
            k = fresh_index(la, "k")
            add_index(k)
            prove_eq(ra.index(k), rb.index(k), name + "[k]")
            raise PathEnd()
        return


# ================================================================ ranges, iterators, generators

class SRange(Sym):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def pv_seq(self):
        n = self.b - self.a
        n = mkint(z3.If(zi(n) > 0, zi(n), z3.IntVal(0)))
        a = self.a
        return SSeq([FS(n, lambda k: a + k)])

    def __getitem__(self, k):
        return self.pv_seq()[k]

    def length(self):
        return self.pv_seq().length()

    def __bool__(self):
        return bool(self.a < self.b)


class GenIter:
    """a generator: the body runs to its end at the first consumption"""
    def __init__(self, thunk):
        self.thunk = thunk
        self.out = None
        self.pos = None
        self.oid = core.CUR.nextoid if core.CUR is not None else 0

    def touch(self):
        p = core.CUR
        if p is not None:
            if any(fr.entry_oid > self.oid for fr in p.loops):
                raise Unsupported("iterator advanced inside a loop")
            if p.journal is not None:
                p.journal.append((self, None, self.pv_save()))

    def pv_save(self):
        return (self.thunk, self.out, self.pos)

    def pv_restore(self, s):
        self.thunk, self.out, self.pos = s

    def run(self):
        if self.thunk is not None:
            t, self.thunk = self.thunk, None
            self.out = SSeq.of(t())

    def seq(self):
        self.run()
        if self.pos is not None:
            raise Unsupported("generator consumed partly by next()")
        return self.out

    def take(self):
        """everything left; the generator is exhausted afterwards"""
        self.touch()
        self.run()
        s = self.out
        if self.pos:
            s = s.slice(slice(self.pos, None))
        self.pos = None
        self.out = SSeq([])
        return s

    def nxt(self, *d):
        self.touch()
        self.run()
        pos = self.pos or 0
        if self.out.native():
            l = self.out.items()
            if pos < len(l):
                self.pos = pos + 1
                return l[pos]
        elif pos == 0:
            if not all(isinstance(s, (Items, FS)) for s in self.out.segs):
                r = first_of(self.out)
                if r is not None:
                    self.out = SSeq([Poison("rest of a generator")]) if False else self.out
                    self.pos = 1
                    return r[0]
            elif self.out.nonempty():
                self.pos = 1
                return self.out.index(0)
        elif all(isinstance(s, (Items, FS)) for s in self.out.segs):
            if self.out.length() > pos:
                self.pos = pos + 1
                return self.out.index(pos)
        else:
            raise Unsupported("second next() on a filtered sequence")
        if d:
            return d[0]
        raise StopIteration

    def __iter__(self):
        s = self.take()
        return iter(s.items())

    def __next__(self):
        return self.nxt()

    def close(self):
        self.out = SSeq([])
        self.thunk = None


def first_of(s):
    """(first element,) or None"""
    s = SSeq.of(s)
    for seg in s.segs:
        if isinstance(seg, Items):
            return (seg.l[0],)
        if isinstance(seg, FS):
            if seg.n > 0:
                return (seg.get(0),)
            continue
        n = seg.n
        p = cur()
        if p.fork(z3.Bool(p.fresh("exists"))):
            w = fresh_index(n)

            def fact(k, seg=seg, w=w):
                if seg.g(k).nonempty():
                    raise Infeasible()
            add_index(w)
            g = seg.g(w)
            if not g.nonempty():
                raise Infeasible()
            add_forall(w, fact)
            return first_of(g)

        def fact(k, seg=seg):
            if seg.g(k).nonempty():
                raise Infeasible()
        add_forall(n, fact)
    return None


def toseq(it):
    """every element still to come from an iterable, as an SSeq"""
    if isinstance(it, GenIter):
        return it.take()
    if isinstance(it, (SSeq, PList, tuple, list, PDict, PSet, SBytes)):
        return SSeq.of(it)
    if isinstance(it, SRange):
        return it.pv_seq()
    if isinstance(it, SStr):
        raise Unsupported("iteration over a symbolic string")
    if hasattr(it, "pv_seq"):
        return SSeq.of(it.pv_seq())
    if isinstance(it, Poison):
        it._no()
    if hasattr(type(it), "__iter__"):
        m = type(it).__iter__
        if getattr(m, "_pv_qual", None):
            return toseq(m(it))
    return SSeq([Items(list(iter(it)))])


def generator(f):
    @functools.wraps(f)
    def g(*a, **k):
        return GenIter(lambda: f(*a, **k))
    return g


def newout():
    r = PList()
    if core.CUR is not None:
        core.CUR.newobj(r)
    return r


def yield_(out, v):
    out.append(v)


def compinto(out, it, fn):
    s = toseq(it)
    if s.native():
        for x in s.items():
            fn(x, out)
        return
    forloop("comp:" + fn.__code__.co_name, s, lambda x: fn(x, out), lambda: {}, lambda d: None, ())


def _one(fn, x):
    out = newout()
    fn(x, out)
    return out.seq()


class _Impure(Ctl):
    pass


def comp(kind, it, fn):
    def run():
        src = it
        if isinstance(src, GenIter) or not isinstance(src, (list, tuple, range, dict, set)):
            s = toseq(src)
        else:
            s = toseq(src)
        if s.native():
            out = newout()
            for x in s.items():
                fn(x, out)
            return out.seq()
        # try the comprehension as a pure map first; if it has effects it is a loop like any other
        out = newout()
        forloop("comp:" + fn.__code__.co_name, s, lambda x: fn(x, out), lambda: {}, lambda d: None, ())
        return out.seq()
    if kind == "gen":
        return GenIter(run)
    s = run()
    if kind == "list":
        return mutable(s)
    if kind == "set":
        r = PSet(s)
        if core.CUR:
            core.CUR.newobj(r)
        return r
    if kind == "dict":
        if not s.native():
            d = PDict()
            if core.CUR:
                core.CUR.newobj(d)
            d.base = PairBase(s)
            return d
        d = PDict()
        if core.CUR:
            core.CUR.newobj(d)
        for k, v in s.items():
            d[k] = v
        return d
    raise Unsupported(kind)


class PairBase:
    """the dict made from a sequence of pairs, the last pair of a key winning"""
    def __init__(self, s):
        self.s = s
        if not (len(s.segs) == 1 and isinstance(s.segs[0], FS)):
            raise Unsupported("dict of a filtered sequence")
        self.seg = s.segs[0]
        self.memo = []

    def find(self, key):
        for k, r in self.memo:
            if k is key:
                return r
        p = cur()
        seg = self.seg
        if p.fork(z3.Bool(p.fresh("haskey"))):
            w = fresh_index(seg.n)
            add_index(w)
            if not eqf(seg.get(w)[0], key):
                raise Infeasible()

            def later(k):
                if k > w and eqf(seg.get(k)[0], key):
                    raise Infeasible()
            add_forall(seg.n, later)
            r = (seg.get(w)[1],)
        else:
            def none(k):
                if eqf(seg.get(k)[0], key):
                    raise Infeasible()
            add_forall(seg.n, none)
            r = None
        self.memo.append((key, r))
        return r

    def has(self, key):
        return self.find(key) is not None

    def get(self, key):
        return self.find(key)[0]


# ================================================================ loops

class _Brk:
    def __repr__(self):
        return "BRK"


BRK = _Brk()
RET = "RET"


def grab(f):
    try:
        return f()
    except NameError:
        return UNBOUND


def is_native_iter(it):
    return False


class Frame:
    """one symbolic loop in its step phase"""
    def __init__(self, key, entry_oid, modset, ctx):
        self.key, self.entry_oid, self.modset, self.ctx = key, entry_oid, modset, ctx


class LoopRec:
    pass


def forloop(site, it, body, get, set_, tnames):
    if isinstance(it, (list, tuple, range)) and not isinstance(it, PList):
        src = it
    elif isinstance(it, PList) and not it.pre:
        src = LiveList(it)
    else:
        src = None
        if isinstance(it, GenIter):
            # consumed element by element, so that what an early exit leaves can still be read
            it.run()
            s = it.out.slice(slice(it.pos, None)) if it.pos else it.out
            gen = it
            if s.native():
                src = GenDrain(gen)
            else:
                it.take()
        else:
            s = toseq(it)
            if s.native():
                src = s.items()
    if src is not None:
        for x in src:
            r = body(x)
            if r is not None:
                return r
        return None
    for seg in s.segs:
        if isinstance(seg, Items):
            for x in seg.l:
                r = body(x)
                if r is not None:
                    return r
        else:
            r = symloop(site, seg, body, get, set_, tnames)
            if r is not None:
                return r
    return None


class LiveList:
    def __init__(self, l):
        self.l, self.k = l, 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.l.pre:
            raise Unsupported("list grows while iterated")
        if self.k < list.__len__(self.l):
            self.k += 1
            return list.__getitem__(self.l, self.k - 1)
        raise StopIteration


class GenDrain:
    def __init__(self, g):
        self.g = g

    def __iter__(self):
        return self

    def __next__(self):
        return self.g.nxt()


def symloop(site, seg, body, get, set_, tnames):
    n = seg.n
    if isinstance(seg, FS):
        def step(k):
            return body(seg.get(k))
    elif isinstance(seg, FM):
        def step(k):
            g = seg.g(k)
            return forloop(site + "/in", g, body, get, set_, tnames)
    else:
        raise Unsupported("loop over a list under construction")
    if core.CUR is not None and core.CUR.driver.look_back is False and isinstance(n, SInt):
        # without a case split: no iteration at all is an instance of the general case
        if core.CUR.known(n.e > 0) is False:
            return None
    elif not (n > 0):
        return None
    return cut(site, n, step, None, get, set_, tnames)


def whileloop(site, test, body, get, set_, tnames):
    p = core.CUR
    if p is None:
        while test():
            r = body()
            if r is not None:
                return r
        return None
    key = tuple(p.dec)
    if key in p.driver.syms:
        return cut(site, None, lambda k: body(), test, get, set_, tnames)
    n0 = p.nreal
    rounds = 0
    while True:
        t = test()
        if not isinstance(t, (bool, type(None), int, str, list, tuple)):
            t = bool(t)
        else:
            t = bool(t)
        if not t:
            return None
        r = body()
        if r is not None:
            return r
        rounds += 1
        if (p.nreal > n0 and rounds >= p.driver.unroll) or rounds > 5000:
            raise NeedSym(key)


def cut(site, n, step, test, get, set_, tnames):
    p = cur()
    key = tuple(p.dec)
    d = p._next("L")
    if d is None:
        raise NeedLoop(list(p.dec), [], [], None)
    _k, asg, phase = d
    p.dec.append(d)
    asg = [(loc, cand) for loc, cand in asg]
    ctxt = LoopCtx(p, site, key, asg, get, set_, n)
    if phase == "init":
        for loc, cand in asg:
            ctxt.check_init(loc, cand)
        raise PathEnd()
    if phase == "step":
        i = SInt(z3.Int(p.fresh("i")))
        p.assume(i.e >= 0)
        if n is not None:
            p.assume(i.e < zi(n))
        ctxt.record(i, step, test)
        p.unfold(i)
        add_index(i)
        ctxt.put(i)
        fr = Frame(key, ctxt.entry_oid, ctxt.heapset(), ctxt)
        outer = p.loops
        p.loops = outer + [fr]
        before = get()
        try:
            if test is not None:
                if not test():
                    raise PathEnd()
            r = step(i)
        finally:
            p.loops = outer
        if r is not None:
            p.loophist.append(("left", site, i))
            ctxt.leave()
            return r
        after = get()
        for nm, v in after.items():
            if nm in tnames:
                continue
            if v is not before.get(nm) and ("v", nm) not in dict(asg) and not samev(v, before.get(nm)):
                raise NewMod(list(key), ("v", nm), ctxt.cands(("v", nm)))
        i1 = mkint(i.e + 1)
        for loc, cand in asg:
            ctxt.check_step(loc, cand, i1)
        raise PathEnd()
    # exit
    if n is None:
        m = SInt(z3.Int(p.fresh("m")))
        p.assume(m.e >= 0)
    else:
        m = n
    ctxt.record(m, step, test)
    add_index(m)
    if p.driver.look_back or n is not None and p.driver.look_back is None:
        last = mkint(zi(m) - 1)
        p.unfold(last)
        add_index(last)
    ctxt.put(m)
    if test is not None:
        if test():
            raise Infeasible()
    p.loophist.append(("done", site, m))
    ctxt.leave()
    set_({nm: Poison(nm) for nm in tnames})
    return None


def samev(a, b):
    if type(a) is type(b) and isinstance(a, (int, str, bytes, type(None), bool)):
        return a == b
    if isinstance(a, (SInt, SBool, SStr)) and type(a) is type(b):
        return a.e.eq(b.e)
    return False


def engine_error(e):
    """was the error raised because a symbolic value met native code?"""
    if type(e) not in (TypeError, AttributeError):
        return False
    s = str(e)
    return any(w in s for w in ("SStr", "SRope", "SInt", "SBool", "SSeq", "SBytes", "SOpq", "SFloat", "GenIter", "SRange", "PList",
                                "PDict", "PSet"))


def cell_get(c):
    try:
        return c.cell_contents
    except ValueError:
        return UNBOUND


def cell_set(c, v):
    if v is UNBOUND:
        del c.cell_contents
    else:
        c.cell_contents = v


def closure_cells(fns):
    """the variables of the enclosing functions a loop body can see, with their present values"""
    out, todo, seen = [], list(fns), set()
    while todo:
        f = todo.pop()
        if not isinstance(f, types.FunctionType) or id(f) in seen:
            continue
        seen.add(id(f))
        for c in f.__closure__ or ():
            if id(c) in seen:
                continue
            seen.add(id(c))
            v = cell_get(c)
            if f.__module__ != __name__:
                out.append((c, v))
            todo.append(v)
    return out


class LoopCtx:
    def __init__(self, p, site, key, asg, get, set_, n):
        self.p, self.site, self.key, self.asg, self.get, self.set_, self.n = p, site, key, asg, get, set_, n
        self.entry_oid = p.nextoid
        self.init = {}
        loc0 = self.loc0 = get()
        for loc, cand in asg:
            self.init[loc] = self.read(loc, loc0)
        self.recs = {}
        self.nullrec = None

    def heapset(self):
        return {loc[1:] for loc, c in self.asg if loc[0] == "h"}

    # locations: ("v", name) a local variable; ("h", oid, attr) an attribute, attr None = container content
    def read(self, loc, loc0=None):
        if loc[0] == "v":
            return (loc0 if loc0 is not None else self.get()).get(loc[1], UNBOUND)
        o = self.p.byoid(loc[1])
        if loc[2] is None:
            return o.pv_save()
        return o.__dict__.get(loc[2], UNBOUND)

    def write(self, loc, v):
        if loc[0] == "v":
            self.set_({loc[1]: v})
            return
        o = self.p.byoid(loc[1])
        self.p.jot(o, loc[2])
        if loc[2] is None:
            o.pv_restore(v)
        elif v is UNBOUND:
            o.__dict__.pop(loc[2], None)
        else:
            o.__dict__[loc[2]] = v

    def cands(self, loc):
        """names of candidate closed forms for a location, best first"""
        p = self.p
        forms = p.driver.forms
        cur_v = self.loc0.get(loc[1], UNBOUND) if loc[0] == "v" else self.read(loc)
        out = []
        if loc[0] == "h" and loc[2] is None:
            o = p.byoid(loc[1])
            if isinstance(o, PList):
                out.append("capture")
            out += ["unchanged"]
            want = "content"
            out += ["f:" + nm for nm in forms if nm.split("/")[0] == want]
            return out
        nm = loc[1] if loc[0] == "v" else loc[2]
        out += ["f:" + k for k in forms if k.split("/")[0] == nm]
        if cur_v is UNBOUND or cur_v is None:
            out.append("poison")
        if cur_v is not UNBOUND:
            out.append("unchanged")
        if isinstance(cur_v, (int, SInt)) and not isinstance(cur_v, bool):
            out += ["count", "countdown", "stride"]
        if loc[0] == "v" and "poison" not in out:
            out.append("poison")
        out += [x for x in ("f:" + k for k in forms) if x not in out and x[2:].split("/")[0] != "content"]
        return out

    def skey(self, loc):
        return (tuple(map(repr, self.key)), loc)

    def form(self, loc, cand, i):
        """the value of loc after i iterations"""
        init = self.init[loc]
        if cand == "unchanged":
            return init
        if cand == "poison":
            return Poison(loc)
        if cand == "count":
            return init + i
        if cand == "countdown":
            return init - i
        if cand == "stride":
            return init + i * self.p.driver.strides[self.skey(loc)]
        if cand.startswith("f:"):
            return self.p.driver.forms[cand[2:]](i, init)
        raise Unsupported(cand)

    def check_init(self, loc, cand):
        p = self.p
        if cand in ("unchanged", "poison", "capture", "count", "countdown", "concat"):
            return
        self.p.locfail = (loc, cand)
        if cand == "stride" and self.skey(loc) not in self.p.driver.strides:
            self.p.fail("loop invariant %s at entry [%s]" % (self.nm(loc), self.site), "undecided: no constant step")
        self.eq(loc, self.init[loc], self.form(loc, cand, 0), "loop invariant %s at entry [%s]" % (self.nm(loc), self.site))
        p.locfail = None

    def nm(self, loc):
        return loc[1] if loc[0] == "v" else str(loc[2] or "content")

    def eq(self, loc, have, want, name):
        if have is UNBOUND or want is UNBOUND:
            if have is want:
                return
            self.p.fail(name, "undecided: unbound variable")
        if loc[0] == "h" and loc[2] is None:
            o = self.p.byoid(loc[1])
            tmp = o.pv_save()
            o.pv_restore(have)
            hs = content(o)
            o.pv_restore(want) if not hasattr(want, "pv_content") else None
            ws = content(o) if not hasattr(want, "pv_content") else want
            o.pv_restore(tmp)
            prove_content(hs, ws, name)
            return
        prove_eq(have, want, name)

    def put(self, i):
        """set every location to its value after i iterations"""
        for loc, cand in self.asg:
            if cand == "unchanged":
                self.write(loc, self.init[loc])
            elif cand == "capture":
                pre, tail = self.init[loc]
                o = self.p.byoid(loc[1])
                base = list(pre or []) + [Items(tail)]
                self.p.jot(o, None)
                o.pv_restore(([s for s in SSeq(base).segs] + [FM(i, self.getter(loc))], []))
                if getattr(self, "stepping_rec", None) is not None:
                    pass
            elif cand == "concat":
                raise Unsupported("concat form")
            else:
                v = self.form(loc, cand, i)
                if loc[0] == "h" and loc[2] is None and hasattr(v, "pv_content"):
                    v.pv_content(self.p.byoid(loc[1]))
                else:
                    self.write(loc, v)

    def getter(self, loc):
        return lambda k: self.at(k)[loc]

    def record(self, bound, step, test):
        """every k < bound ran to its normal end: rerun iteration k on demand"""
        ctx = self
        memo = {}
        mark = self.p.jmark()
        cells = closure_cells([step, test])

        def at(k):
            p = cur()
            kk = k.e.get_id() if isinstance(k, SInt) else k
            if kk in memo:
                return memo[kk][0]
            if p is not ctx.p:
                raise Unsupported("loop record of another path")
            # the iteration is replayed in its own state and everything is put back
            memo[kk] = ({loc: SSeq([]) for loc, c in ctx.asg if c == "capture"}, k)   # re-entrancy guard
            saved = [(loc, ctx.read(loc)) for loc, c in ctx.asg]
            savedl = ctx.get()
            savedc = [(c, cell_get(c)) for c, v in cells]
            back = p.rewind(mark)
            for c, v in cells:
                cell_set(c, v)
            fr = Frame(ctx.key, p.nextoid, ctx.heapset(), ctx)
            loops, p.loops = p.loops, p.loops + [fr]
            try:
                ctx.put(k)
                marks = {}
                for loc, c in ctx.asg:
                    if c == "capture":
                        o = p.byoid(loc[1])
                        marks[loc] = len(o.pre or [])
                if test is not None and not test():
                    raise Infeasible()
                r = step(k)
                if r is not None:
                    raise Infeasible()
                out = {}
                for loc, c in ctx.asg:
                    if c == "capture":
                        o = p.byoid(loc[1])
                        segs = list(o.pre or [])[marks[loc]:] + [Items(list.__iter__(o))]
                        out[loc] = SSeq(segs)
                memo[kk] = (out, k)
            except Exception as e:
                if isinstance(e, (NameError, z3.Z3Exception)) or engine_error(e):
                    raise Unsupported("%s: %s" % (type(e).__name__, e))
                # the iteration raised: excluded, it completed normally
                raise Infeasible()
            finally:
                p.loops = loops
                for loc, v in saved:
                    ctx.write(loc, v)
                p.replayed(back)
                for c, v in savedc:
                    cell_set(c, v)
                ctx.set_({a: b for a, b in savedl.items() if b is not UNBOUND})
            return out
        self.at = at
        add_forall(bound, lambda k: at(k))

    def check_step(self, loc, cand, i1):
        p = self.p
        name = "loop invariant %s preserved [%s]" % (self.nm(loc), self.site)
        p.locfail = (loc, cand)
        if cand == "poison":
            p.locfail = None
            return
        if cand == "capture":
            o = p.byoid(loc[1])
            pre = list(o.pre or [])
            base = SSeq(list(self.init[loc][0] or []) + [Items(self.init[loc][1])]).segs
            ok = len(pre) > len(base) and all(type(a) is type(b) for a, b in zip(pre, base)) and isinstance(pre[len(base)], FM)
            if not ok:
                p.fail(name, "undecided: the list is not only appended to")
            # forms describe values: an object another location still holds must not be kept by the list as well
            new = pre[len(base):] + [Items(list(list.__iter__(o)))]
            for l2, c2 in self.asg:
                if isinstance(c2, str) and c2.startswith("f:"):
                    h = self.read(l2)
                    if isinstance(h, (PList, PDict, PSet)) and any(holds(x, h) for x in new):
                        p.fail(name, "undecided: the list keeps an object that %s still refers to" % self.nm(l2))
            p.obls.append(core.Obl(name, True, "structure", 0.0))
            p.locfail = None
            return
        have = self.read(loc)
        if cand in ("count", "countdown") and isinstance(have, (int, SInt)):
            # the amount by which one iteration moved it, if that is a constant
            d = have - self.form(loc, cand, i1 - 1)
            d = z3.simplify(d.e).as_long() if isinstance(d, SInt) and z3.is_int_value(z3.simplify(d.e)) else d
            if isinstance(d, int) and d not in (0, 1, -1):
                p.driver.strides.setdefault(self.skey(loc), d)
        if cand == "unchanged":
            want = self.init[loc]
        else:
            want = self.form(loc, cand, i1)
        self.eq(loc, have, want, name)
        p.locfail = None

    def leave(self):
        pass


def holds(s, o, depth=0):
    """is the object part of the value"""
    if s is o:
        return True
    if depth > 6:
        return False
    if isinstance(s, Items):
        return any(holds(x, o, depth + 1) for x in s.l)
    if isinstance(s, (tuple, list)):
        it = list.__iter__(s) if isinstance(s, list) else s
        return any(holds(x, o, depth + 1) for x in it) or isinstance(s, PList) and any(holds(x, o, depth + 1) for x in s.pre or [])
    if isinstance(s, SSeq):
        return any(holds(x, o, depth + 1) for x in s.segs)
    if isinstance(s, FM) and isinstance(s.n, int):
        return any(holds(s.g(k), o, depth + 1) for k in range(s.n))
    return False


def content(o):
    if isinstance(o, PList):
        return o.seq()
    if isinstance(o, PSet):
        c = PSet()
        c.pv_restore(o.pv_save())
        return c
    return o


def prove_content(a, b, name):
    if isinstance(a, PSet) and isinstance(b, PSet):
        if a.base is not b.base or set(set.__iter__(a)) != set(set.__iter__(b)) or \
                len(a.sym) != len(b.sym) or not all(x is y for x, y in zip(a.sym, b.sym)):
            cur().fail(name, "undecided: set content")
        cur().obls.append(core.Obl(name, True, "evaluation", 0.0))
        return
    if isinstance(a, PDict):
        if hasattr(b, "pv_prove"):
            return b.pv_prove(a, name)
        raise Unsupported("loop over dict content")
    if hasattr(b, "pv_prove"):
        return b.pv_prove(a, name)
    prove_seq(SSeq.of(a), SSeq.of(b), name)


# ================================================================ operators

def cmp(op, a, b):
    if isinstance(a, Poison):
        a._no()
    if isinstance(b, Poison):
        b._no()
    if op == "is":
        return _is(a, b)
    if op == "is not":
        return not _is(a, b)
    if op == "in":
        return contains(b, a)
    if op == "not in":
        return not_(contains(b, a))
    if op == "==":
        return eqf(a, b)
    if op == "!=":
        if isobj(a) and type(a).__ne__ is not object.__ne__:
            return a != b
        return not_(eqf(a, b))
    if isinstance(a, (tuple, SSeq)) and isinstance(b, (tuple, SSeq)):
        return tuplecmp(op, a, b)
    if op == "<":
        return a < b
    if op == "<=":
        return a <= b
    if op == ">":
        return a > b
    return a >= b


def _is(a, b):
    if isinstance(a, SBool) and isinstance(b, bool):
        return bool(a) is b
    if isinstance(b, SBool) and isinstance(a, bool):
        return bool(b) is a
    if a is not b and same_element(a, b) is not None:
        return bool(same_element(a, b))
    return a is b


def same_element(a, b):
    """two elements of one sequence are the same object when their indexes are equal: SBool, None if that does not apply"""
    p = core.CUR
    if p is None or type(a) is not type(b):
        return None
    x, y = p.origin.get(id(a)), p.origin.get(id(b))
    if x is None or y is None or x[0] is not y[0]:
        return None
    return mkbool(zi(x[1]) == zi(y[1]))


def tuplecmp(op, a, b):
    la, lb = SSeq.of(a).items(), SSeq.of(b).items()
    for x, y in zip(la, lb):
        if not eqf(x, y):
            return cmp(op[0], x, y)
    return {"<": len(la) < len(lb), "<=": len(la) <= len(lb), ">": len(la) > len(lb), ">=": len(la) >= len(lb)}[op]


def chain(ops, left, *thunks):
    for op, t in zip(ops[:-1], thunks[:-1]):
        right = t()
        r = cmp(op, left, right)
        if not r:
            return r
        left = right
    return cmp(ops[-1], left, thunks[-1]())


_BIN = {"Add": operator.add, "Sub": operator.sub, "Mult": operator.mul, "Div": operator.truediv,
        "FloorDiv": operator.floordiv, "Pow": operator.pow, "LShift": operator.lshift, "RShift": operator.rshift,
        "BitAnd": operator.and_, "BitOr": operator.or_, "BitXor": operator.xor, "MatMult": operator.matmul, "Mod": operator.mod}
_IBIN = {"Add": operator.iadd, "Sub": operator.isub, "Mult": operator.imul, "BitOr": operator.ior, "BitAnd": operator.iand}


def binop(op, a, b):
    if op == "BitOr" and isinstance(a, SInt) and isinstance(b, SInt):
        return bitor(a, b)
    if op == "Mult" and isinstance(b, SInt) and isinstance(a, (tuple, list, str, bytes)):
        if isinstance(a, PList):
            return a * b
        if isinstance(a, (tuple, list)):
            return mutable(SSeq.of(PList(a) * b))
        if len(a) == 1:
            raise Unsupported("string repetition")
    return _BIN[op](a, b)


def bitor(a, b):
    """bitwise or of values whose bits are disjoint, which is checked"""
    p = cur()
    for hi, lo in ((a, b), (b, a)):
        for k in (8, 16, 32):
            if p.known(z3.And(lo.e >= 0, lo.e < (1 << k), hi.e % (1 << k) == 0)):
                return hi + lo
    raise Unsupported("| of overlapping values")


def augop(op, a, b):
    if op == "Mod":
        return mod(a, b)
    if op in _IBIN:
        if isinstance(a, tuple) and isinstance(b, (SSeq, PList)):
            return a + b
        return _IBIN[op](a, b)
    return binop(op, a, b)


def getitem(o, k):
    if isinstance(k, Sym):
        if isinstance(o, (tuple, list)) and not isinstance(o, PList):
            return SSeq.of(o)[k]
        if isinstance(o, (str, bytes)):
            return SStr(zs(o), isinstance(o, bytes))[k]
        if isinstance(o, dict) and not isinstance(o, PDict):
            for kk, v in o.items():
                if eqf(kk, k):
                    return v
            raise KeyError(k)
    if isinstance(k, slice) and any(isinstance(x, Sym) for x in (k.start, k.stop, k.step)):
        if isinstance(o, (tuple, list)) and not isinstance(o, PList):
            return SSeq.of(o)[k]
        if isinstance(o, (str, bytes)):
            return SStr(zs(o), isinstance(o, bytes))[k]
    if isinstance(k, tuple) and not concrete(k) and isinstance(o, dict) and not isinstance(o, PDict):
        for kk, v in o.items():
            if eqf(kk, k):
                return v
        raise KeyError(k)
    return o[k]


def setitem(o, k, v):
    if isinstance(o, dict) and not isinstance(o, PDict) and not concrete(k):
        raise Unsupported("symbolic key in a native dict")
    o[k] = v


def delitem(o, k):
    del o[k]


def setattr_(o, name, v):
    p = core.CUR
    if p is not None and not isinstance(o, (type, type(itertools))):
        p.note_write(o, name)
    setattr(o, name, v)


def delattr_(o, name):
    p = core.CUR
    if p is not None:
        p.note_write(o, name)
    delattr(o, name)


def mklist(l):
    return newlist(l)


def mkdict(pairs):
    d = PDict()
    if core.CUR is not None:
        core.CUR.newobj(d)
    for k, v in pairs:
        d[k] = v
    return d


def mkset(l):
    s = PSet(l)
    if core.CUR is not None:
        core.CUR.newobj(s)
    return s


def unpack(v, n):
    if isinstance(v, tuple) or (isinstance(v, list) and not isinstance(v, PList)):
        if len(v) != n:
            raise ValueError("expected %d values, got %d" % (n, len(v)))
        return v
    s = toseq(v)
    ln = None
    if s.native():
        l = s.items()
        if len(l) != n:
            raise ValueError("expected %d values, got %d" % (n, len(l)))
        return l
    ln = s.length()
    if not (ln == n):
        raise ValueError("wrong number of values to unpack")
    return [s.index(k) for k in range(n)]


class StarSeq:
    """f(*s) for a sequence of unknown length; only instrumented functions with a star parameter take it"""
    def __init__(self, seq):
        self.__dict__["seq"] = seq

    def _no(self, *a, **k):
        raise Unsupported("star argument of unknown length")
    __getattr__ = __iter__ = __eq__ = __ne__ = __bool__ = __len__ = __hash__ = __getitem__ = __str__ = __setattr__ = __add__ = \
        __contains__ = __lt__ = __call__ = _no


def star(v):
    return toseq(v).items()


def starargs(v):
    s = toseq(v)
    if core.CUR is None or s.native():
        return s.items()
    try:
        return s.items()
    except Unsupported:
        return (StarSeq(SSeq(s.segs, tuple)),)


def varargs(t):
    """the star parameter of a function"""
    for k, x in enumerate(t):
        if type(x) is StarSeq:
            if len(t) == 1:
                return x.seq
            raise Unsupported("star argument of unknown length among others")
    return t


def base(cls):
    if cls is dict:
        return PDict
    if cls is list:
        return PList
    if cls is set:
        return PSet
    if cls is collections.OrderedDict:
        return POrdered
    return cls


def ctx(cm):
    return cm


# ================================================================ formatting

def fmt_one(conv, x):
    """piece for one % conversion, as SStr or str"""
    if conv.endswith("s") or conv.endswith("r"):
        if isinstance(x, SStr) and conv == "%s":
            return x
        if not has_sym(x):
            return conv % (x,)
        if conv == "%s" and isobj(x) and type(x).__str__ is not object.__str__:
            return type(x).__str__(x)
        if isinstance(x, SInt):
            return int_to_str(x)
        return fresh_text(conv, x)
    if isinstance(x, SInt):
        if conv in ("%i", "%d"):
            return int_to_str(x)
        return fresh_text(conv, x)
    if has_sym(x):
        return fresh_text(conv, x)
    return conv % (x,)


def int_to_str(x):
    return SStr(z3.If(x.e >= 0, z3.IntToStr(x.e), z3.Concat(z3.StringVal("-"), z3.IntToStr(-x.e))))


def has_sym(x):
    if isinstance(x, Sym):
        return True
    if isinstance(x, (tuple, list)):
        if isinstance(x, PList) and x.pre:
            return True
        return any(has_sym(y) for y in (list.__iter__(x) if isinstance(x, list) else x))
    return False


def fresh_text(conv, x):
    """text about which nothing is known but that it is a function of its argument"""
    if isinstance(x, (SInt, SBool)):
        return SStr(z3.Function("fmt" + conv, core.I, core.S)(zi(x)))
    if isinstance(x, SStr):
        return SStr(z3.Function("fmt" + conv, core.S, core.S)(x.e))
    if isinstance(x, SOpq):
        return SStr(z3.Function("fmt" + conv, core.OB, core.S)(x.e))
    if isinstance(x, SFloat):
        return SStr(z3.Function("fmt" + conv, core.FL, core.S)(x.e))
    if isinstance(x, PList) and x.pre and x.seq().native() or isinstance(x, SSeq) and x.native():
        x = list(x.seq().items()) if isinstance(x, PList) else (list if x.kind is list else tuple)(x.items())
    if type(x) in (tuple, list) or isinstance(x, PList) and not x.pre:
        # python's text of a list or tuple
        l = list.__iter__(x) if isinstance(x, list) else x
        out = ["(" if type(x) is tuple else "["]
        for k, y in enumerate(l):
            out += [", "] if k else []
            out.append(b_repr(y) if has_sym(y) else repr(y))
        out.append(")" if type(x) is tuple and len(x) != 1 else ",)" if type(x) is tuple else "]")
        return joinparts(out)
    return SStr(z3.String(cur().fresh("text")))


_CONV = re.compile(r"%(?:\((\w+)\))?([-#0 +]*\d*(?:\.\d+)?[hlL]?[diouxXeEfFgGcrsa%])")


def mod(a, b):
    if isinstance(a, (str, bytes)):
        if not has_sym(b) and not (isinstance(b, dict)):
            if isinstance(b, tuple) and any(isobj(y) for y in b) or isobj(b):
                pass
            else:
                if isinstance(b, PList):
                    b = list(b)
                return a % b
        if isinstance(a, bytes):
            raise Unsupported("bytes formatting")
        args = list(b) if isinstance(b, tuple) else [b]
        out, pos, k = [], 0, 0
        for m in _CONV.finditer(a):
            out.append(a[pos:m.start()])
            pos = m.end()
            if m.group(2) == "%":
                out.append("%")
                continue
            if m.group(1) is not None:
                x = getitem(b, m.group(1))
            else:
                if k >= len(args):
                    raise TypeError("not enough arguments for format string")
                x = args[k]
                k += 1
            out.append(fmt_one("%" + m.group(2), x))
        if not isinstance(b, dict) and k < len(args):
            raise TypeError("not all arguments converted during string formatting")
        out.append(a[pos:])
        return joinparts(out)
    if isinstance(a, SStr):
        raise Unsupported("formatting with a symbolic template")
    return a % b


def joinparts(parts):
    out = []
    for p in parts:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != "" if isinstance(p, str) else True:
            out.append(p)
    if not out:
        return ""
    if len(out) == 1:
        return out[0]
    r = mkstr(z3.Concat(*[zs(p) for p in out]))
    if isinstance(r, SStr):
        r.parts = out
    return r


def fstr(*parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
            continue
        v, conv, spec = p
        if conv == 114:
            out.append(fmt_one("%r", v))
        elif not spec:
            out.append(fmt_one("%s", v))
        elif isinstance(spec, str) and re.fullmatch(r"0?\d*[dxX]", spec):
            out.append(fmt_one("%" + spec, v))
        elif not has_sym(v):
            out.append(format(v, spec))
        else:
            out.append(fresh_text(str(spec), v))
    return joinparts(out)


def str_join(sep, it):
    s = toseq(it)
    if s.native():
        l = s.items()
        if not has_sym(l) and not isinstance(sep, Sym):
            return sep.join(l)
        if not l:
            return b"" if isinstance(sep, bytes) or getattr(sep, "b", False) else ""
        if isinstance(sep, (bytes, SBytes)) and any(isinstance(x, (SBytes, SRope)) for x in l):
            out = []
            for k, x in enumerate(l):
                out += [sep, x] if k else [x]
            return rope(out)
        out = []
        b = isinstance(sep, bytes) or getattr(sep, "b", False)
        for k, x in enumerate(l):
            if not isstr(x) or (isinstance(x, bytes) or getattr(x, "b", False)) != b:
                raise TypeError("sequence item %d: wrong type" % k)
            if k:
                out.append(zs(sep))
            out.append(zs(x))
        return mkstr(z3.Concat(*out) if len(out) > 1 else out[0], b)
    return join_text(sep, s)


def join_text(sep, s):
    """sep.join(s) for a sequence of unknown length: an unknown text that is remembered to be this join"""
    p = cur()
    b = isinstance(sep, bytes) or getattr(sep, "b", False)
    if not s.nonempty():
        return b"" if b else ""
    t = z3.Const(p.fresh("joined"), core.S)
    p.joins[t.get_id()] = (sep, s, t)
    try:
        first = s.index(0)
    except Unsupported:
        first = None
    if isstr(first):
        p.assume(z3.PrefixOf(zs(first), t))
        try:
            n = s.length()
        except Unsupported:
            n = None
        if n is not None:
            p.assume(z3.Implies(zi(n) == 1, t == zs(first)))
    return SStr(t, b)


def text_parts(e, out):
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        for c in e.children():
            text_parts(c, out)
    else:
        out.append(e)
    return out


def prove_text(a, b, name):
    """equality of texts containing joins: part by part"""
    p = cur()
    pa, pb = text_parts(z3.simplify(a), []), text_parts(z3.simplify(b), [])
    if p.joins and any(x.get_id() in p.joins for x in pa) and any(x.get_id() in p.joins for x in pb):
        def const(x):
            return zstr_py(x) if z3.is_string_value(x) else None
        for end in (0, -1):
            while pa and pb:
                x, y = pa[end], pb[end]
                cx, cy = const(x), const(y)
                if cx == "":
                    pa.pop(end)
                    continue
                if cy == "":
                    pb.pop(end)
                    continue
                if x.eq(y):
                    pass
                elif x.get_id() in p.joins and y.get_id() in p.joins:
                    (s1, q1, _t), (s2, q2, _u) = p.joins[x.get_id()], p.joins[y.get_id()]
                    prove_eq(s1, s2, name + " (separator)")
                    prove_seq(q1, q2, name)
                elif cx is not None and cy is not None:
                    n = 0
                    while n < min(len(cx), len(cy)) and (cx[n] == cy[n] if end == 0 else cx[-1 - n] == cy[-1 - n]):
                        n += 1
                    if not n:
                        break
                    pa[end] = z3.StringVal(cx[n:] if end == 0 else cx[:len(cx) - n])
                    pb[end] = z3.StringVal(cy[n:] if end == 0 else cy[:len(cy) - n])
                    continue
                else:
                    break
                pa.pop(end)
                pb.pop(end)
        if not pa and not pb:
            p.obls.append(core.Obl(name, True, "structure", 0.0))
            return
        e = z3.StringVal("")
        a = z3.Concat(*pa) if len(pa) > 1 else pa[0] if pa else e
        b = z3.Concat(*pb) if len(pb) > 1 else pb[0] if pb else e
    return p.prove(a == b, name)


# ================================================================ struct

_SZ = {"B": 1, "b": 1, "H": 2, "h": 2, "I": 4, "i": 4, "Q": 8, "q": 8, "f": 4, "d": 8, "c": 1, "x": 1, "s": 1}


def parse_fmt(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    if not fmt.startswith(">") and not fmt.startswith("!"):
        if any(c not in "Bbcxs0123456789" for c in fmt):
            raise Unsupported("native struct format %r" % fmt)
    out = []
    num = ""
    for c in fmt.lstrip(">!"):
        if c.isdigit():
            num += c
            continue
        if c.isspace():
            continue
        if c not in _SZ:
            raise Unsupported("struct format %r" % fmt)
        k = int(num) if num else 1
        num = ""
        if c == "s":
            out.append(("s", k))
        else:
            out += [(c, 1)] * k
    return out


def decode_one(buf, o, c):
    if c == "B":
        return buf.at(o)
    if c in "HIQ":
        return uint(buf, o, _SZ[c])
    if c in "bhiq":
        return sint(buf, o, _SZ[c])
    if c == "f":
        return SFloat(F32(zi(uint(buf, o, 4))))
    if c == "d":
        return SFloat(F64(zi(uint(buf, o, 8))))
    if c == "c":
        return SBytes(buf.base, buf.off + o, 1)
    raise Unsupported("struct code %r" % c)


def struct_unpack(fmt, buf, off, exact):
    if isinstance(fmt, SymFmt):
        total = fmt.size
    else:
        items = parse_fmt(fmt)
        total = sum(k if c == "s" else _SZ[c] for c, k in items)
    if exact:
        if not (buf.n == total):
            raise _struct.error("unpack requires a buffer of another size")
    else:
        if off < 0:
            raise Unsupported("negative struct offset")
        if not (off + total <= buf.n):
            raise _struct.error("unpack_from requires a larger buffer")
    if isinstance(fmt, SymFmt):
        w = _SZ[fmt.code]
        return SSeq([FS(fmt.n, lambda k: decode_one(buf, off + k * w, fmt.code))])
    out = []
    o = off
    for c, k in items:
        if c == "s":
            out.append(SBytes(buf.base, mkint(zi(buf.off) + zi(o)), k))
            o = o + k
        elif c == "x":
            o = o + 1
        else:
            out.append(decode_one(buf, o, c))
            o = o + _SZ[c]
    return tuple(out)


class SymFmt:
    """struct format '>%i<code>' with a symbolic count"""
    def __init__(self, n, code, text):
        self.n, self.code, self.format = n, code, text
        m = z3.If(zi(n) > 0, zi(n), z3.IntVal(0))
        self.size = mkint(m * _SZ[code])
        self.n = n

    def unpack_from(self, buf, offset=0):
        return struct_unpack(self, buf, offset, False)

    def unpack(self, buf):
        return struct_unpack(self, buf, 0, True)


def mk_struct(fmt):
    if isinstance(fmt, SStr):
        pt = fmt.parts
        if pt and len(pt) == 3 and pt[0] == ">" and len(pt[2]) == 1 and isinstance(pt[1], SStr) and pt[2] in _SZ:
            src = getattr(pt[1], "e", None)
            # the decimal text of an integer: recover the integer
            n = _int_of_text(pt[1])
            if n is not None:
                if not (n >= 0):
                    raise _struct.error("bad char in struct format")
                return SymFmt(n, pt[2], fmt)
        raise Unsupported("struct format")
    return _struct.Struct(fmt)


def _int_of_text(s):
    e = s.e
    # If(x >= 0, int.to.str(x), ...)
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        t = e.arg(1)
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_STR_TO_INT + 0 and False:
            return None
        if z3.is_app(t) and t.decl().name() in ("str.from_int", "int.to.str", "str.from-int"):
            return SInt(t.arg(0))
    return None


# ================================================================ calls

def call(f, *a, **k):
    m = None
    try:
        m = MODELS.get(f)
    except TypeError:
        pass
    if m is not None:
        return m(*a, **k)
    if isinstance(f, type):
        return make(f, a, k)
    s = getattr(f, "__self__", None)
    if s is not None and isinstance(s, NATIVE) and getattr(f, "__name__", None):
        return callm(s, f.__name__, *a, **k)
    if isinstance(f, functools.partial):
        return call(f.func, *(f.args + a), **dict(f.keywords, **k))
    p = core.CUR
    if p is not None and p.driver.summaries and type(f) is types.FunctionType and not hasattr(f, "_pv_qual"):
        # a function outside of the code under contract, of assumed behaviour
        q = "%s:%s" % (f.__module__, f.__qualname__)
        s = p.driver.summaries.get(q)
        if s is not None:
            p.driver.used.add(q)
            return s(*a, **k)
    return f(*a, **k)


def make(cls, a, k):
    p = core.CUR
    if p is None or getattr(cls, "__module__", "") == "builtins" \
            or type(cls).__call__ is not type.__call__:
        return cls(*a, **k)
    if "_pv_instr" not in _mod(cls):
        sub = p.driver.summaries.get("%s:%s" % (cls.__module__, cls.__qualname__)) if p.driver.summaries else None
        if sub is not None:
            p.driver.used.add("%s:%s" % (cls.__module__, cls.__qualname__))
            return call(sub, *a, **k)
        return cls(*a, **k)
    o = cls.__new__(cls, *a, **k) if cls.__new__ is not object.__new__ else object.__new__(cls)
    if isinstance(o, cls):
        p.newobj(o)
        cls.__init__(o, *a, **k) if not (cls.__init__ is object.__init__ and not a and not k) else None
    return o


def _mod(cls):
    import sys
    m = sys.modules.get(cls.__module__)
    return m.__dict__ if m else {}


NATIVE = (str, bytes, list, tuple, dict, set, frozenset, _struct.Struct)


def callm(o, name, *a, **k):
    if isinstance(o, Poison):
        o._no()
    if isinstance(o, type) and o in (dict, list, set, collections.OrderedDict) and a and isinstance(a[0], (PDict, PList, PSet)):
        return getattr(base(o), name)(*a, **k)
    if isinstance(o, (str, bytes)) or isinstance(o, SStr):
        if name == "join":
            return str_join(o, a[0])
        if any(has_sym(x) for x in a) and not isinstance(o, SStr):
            o = SStr(zs(o), isinstance(o, bytes))
        if name == "format" and isinstance(o, str):
            if any(has_sym(x) for x in list(a) + list(k.values())):
                return SStr(z3.String(cur().fresh("text")))
        return getattr(o, name)(*a, **k)
    if isinstance(o, _struct.Struct):
        if name in ("unpack", "unpack_from") and isinstance(a[0], SBytes):
            off = k.get("offset", a[1] if len(a) > 1 else 0)
            return struct_unpack(o.format, a[0], off, name == "unpack")
        if name in ("unpack", "unpack_from") and any(isinstance(x, Sym) for x in a):
            raise Unsupported("struct unpack of %r" % (a,))
    if isinstance(o, dict) and not isinstance(o, PDict):
        if name in ("get", "setdefault", "pop", "__contains__") and not concrete(a[0]):
            if name == "get":
                for kk, v in o.items():
                    if eqf(kk, a[0]):
                        return v
                return a[1] if len(a) > 1 else None
            raise Unsupported("symbolic key in a native dict")
    if isinstance(o, list) and not isinstance(o, PList):
        if name == "extend":
            a = (toseq(a[0]).items(),)
    f = getattr(o, name)
    if isinstance(o, (PList, PDict, PSet, list, dict, set, tuple)):
        return f(*a, **k)
    return call(f, *a, **k)


# ---------------------------------------------------------------- builtin models

def b_len(x):
    if isinstance(x, Poison):
        x._no()
    if isinstance(x, (SStr, SBytes, SRope, SSeq, PList, PDict, PSet, SRange)):
        return x.length()
    m = getattr(type(x), "__len__", None)
    if m is not None and getattr(m, "_pv_qual", None):
        return m(x)
    return len(x)


def b_range(*a):
    if any(isinstance(x, Sym) for x in a):
        if len(a) == 1:
            return SRange(0, a[0])
        if len(a) == 2 or a[2] == 1:
            return SRange(a[0], a[1])
        if a[2] == -1:
            lo, hi = a[1], a[0]
            n = hi - lo
            n = mkint(z3.If(zi(n) > 0, zi(n), z3.IntVal(0)))
            return SSeq([FS(n, lambda k: hi - k)])
        if isinstance(a[2], int) and a[2] > 0:
            lo, hi, st = a
            n = mkint(z3.If(zi(hi) > zi(lo), (zi(hi) - zi(lo) + (st - 1)) / st, z3.IntVal(0)))
            return SSeq([FS(n, lambda k: lo + k * st)])
        raise Unsupported("range step")
    return range(*a)


def _typeof(x):
    if isinstance(x, SBool):
        return bool
    if isinstance(x, SInt):
        return int
    if isinstance(x, SStr):
        return bytes if x.b else str
    if isinstance(x, SBytes):
        return bytes
    if isinstance(x, SFloat):
        return float
    if isinstance(x, SSeq):
        return {tuple: tuple, list: list}.get(x.kind, tuple)
    if isinstance(x, SRange):
        return range
    if isinstance(x, Poison):
        x._no()
    if isinstance(x, SOpq):
        raise Unsupported("type of an opaque value")
    return None


def b_isinstance(x, t):
    ty = _typeof(x)
    if ty is not None:
        ts = t if isinstance(t, tuple) else (t,)
        return any(issubclass(ty, q) for q in ts)
    return isinstance(x, t)


def b_type(*a):
    if len(a) == 1:
        ty = _typeof(a[0])
        if ty is not None:
            return ty
        if type(a[0]) in (PList, PDict, PSet, POrdered):
            return {PList: list, PDict: dict, PSet: set, POrdered: collections.OrderedDict}[type(a[0])]
        if isinstance(a[0], _struct.Struct) or not hasattr(a[0], "pv_class"):
            return type(a[0])
        return a[0].pv_class
    return type(*a)


def b_tuple(it=()):
    if type(it) is tuple:
        return it
    s = toseq(it)
    if s.native():
        return tuple(s.items())
    return SSeq(s.segs, tuple)


def b_list(it=()):
    return mutable(toseq(it))


def b_set(it=()):
    r = PSet(toseq(it))
    if core.CUR is not None:
        core.CUR.newobj(r)
    return r


def b_frozenset(it=()):
    s = toseq(it)
    if s.native() and all(concrete(x) for x in s.items()):
        return frozenset(s.items())
    return b_set(s)


def _mkd(cls):
    def f(*a, **k):
        d = cls()
        if core.CUR is not None:
            core.CUR.newobj(d)
        for x in a:
            if isinstance(x, dict):
                d.update(x)
            else:
                s = toseq(x)
                if s.native():
                    for kv in s.items():
                        kk, v = unpack(kv, 2)
                        d[kk] = v
                else:
                    d.base = PairBase(s.map(lambda kv: tuple(unpack(kv, 2))))
        for kk, v in k.items():
            d[kk] = v
        return d
    return f


b_dict = _mkd(PDict)
b_odict = _mkd(POrdered)


def b_defaultdict(factory=None, *a, **k):
    d = PDefault(factory)
    if core.CUR is not None:
        core.CUR.newobj(d)
    for x in a:
        d.update(x)
    return d


def zipseq(seqs):
    ss = [toseq(x) for x in seqs]
    if all(s.native() for s in ss):
        return SSeq([Items(list(zip(*[s.items() for s in ss])))])
    n = None
    for s in ss:
        m = s.length()
        if n is None:
            n = m
        elif not (isinstance(m, int) and isinstance(n, int)):
            if core.cur().known(zi(n) <= zi(m)):
                pass
            elif core.cur().known(zi(m) <= zi(n)):
                n = m
            else:
                n = mkint(z3.If(zi(n) <= zi(m), zi(n), zi(m)))
        else:
            n = min(n, m)
    return SSeq([FS(n, lambda k: tuple(s.index(k) for s in ss))])


def b_zip(*seqs, **k):
    if k:
        raise Unsupported("zip options")
    return GenIter(lambda: zipseq(seqs))


def b_zip_longest(*seqs, **k):
    fill = k.get("fillvalue")

    def run():
        ss = [toseq(x) for x in seqs]
        if all(s.native() for s in ss):
            return SSeq([Items(list(itertools.zip_longest(*[s.items() for s in ss], fillvalue=fill)))])
        n = ss[0].length()
        for s in ss[1:]:
            m = s.length()
            n = mkint(z3.If(zi(n) >= zi(m), zi(n), zi(m)))
        lens = [s.length() for s in ss]
        return SSeq([FS(n, lambda k: tuple((s.index(k) if bool(k < m) else fill) for s, m in zip(ss, lens)))])
    return GenIter(run)


def b_enumerate(it, start=0):
    def run():
        s = toseq(it)
        if s.native():
            return SSeq([Items([(start + k, x) for k, x in enumerate(s.items())])])
        if any(isinstance(g, FM) for g in s.segs):
            raise Unsupported("enumerate of a filtered sequence")
        if len(s.segs) == 1:
            seg = s.segs[0]
            return SSeq([FS(seg.n, lambda k: (start + k, seg.get(k)))])
        return SSeq([FS(s.length(), lambda k: (start + k, s.index(k)))])
    return GenIter(run)


def b_map(f, *its):
    def run():
        if len(its) == 1:
            s = toseq(its[0])
            if s.native():
                return SSeq([Items([call(f, x) for x in s.items()])])
            return comp("list", s, lambda x, out: out.append(call(f, x))).seq()
        s = zipseq(its)
        return comp("list", s, lambda t, out: out.append(call(f, *t))).seq()
    return GenIter(run)


def b_filter(f, it):
    def run():
        def one(x, out):
            if (call(f, x) if f is not None else x):
                out.append(x)
        return comp("list", it, one).seq()
    return GenIter(run)


def b_sorted(it, key=None, reverse=False):
    if hasattr(type(it), "pv_sorted"):
        # what sorting this is, is for the contract to say
        return call(it.pv_sorted, key, reverse)
    s = toseq(it)
    if s.native():
        l = s.items()
        if len(l) <= 1:
            return newlist(l)
        keys = [call(key, x) if key is not None else x for x in l]
        if not has_sym(keys):
            idx = sorted(range(len(l)), key=lambda i: keys[i], reverse=reverse)
            return newlist([l[i] for i in idx])
        # insertion sort with symbolic comparisons
        out = []
        for x, kx in zip(l, keys):
            j = len(out)
            while j > 0 and bool(cmp(">", kx, out[j - 1][1]) if reverse else cmp("<", kx, out[j - 1][1])):
                j -= 1
            out.insert(j, (x, kx))
        return newlist([x for x, _k in out])
    return sorted_abs(s, key, reverse)


def sorted_abs(s, key, reverse):
    p = cur()
    if p.driver.order_free:
        # the contract is about the elements, whatever their order
        p.driver.used.add("the order produced by sorting")
        return mutable(s)
    raise Unsupported("sorting a sequence of unknown length")


class SortedOf:
    pass


def b_reversed(x):
    s = SSeq.of(x) if not isinstance(x, PDict) else SSeq.of(x.keys())
    if s.native():
        return GenIter(lambda: SSeq([Items(list(reversed(s.items())))]))
    n = s.length()
    return GenIter(lambda: SSeq([FS(n, lambda k: s.index(n - 1 - k))]))


def b_any(it):
    return seq_any(toseq(it))


def b_all(it):
    return not seq_any(toseq(it), lambda x: not x)


def b_sum(it, start=0):
    s = toseq(it)
    if s.native():
        for x in s.items():
            start = start + x
        return start
    raise Unsupported("sum of a sequence of unknown length")


def _mm(pick):
    def f(*a, **k):
        key = k.get("key")
        if len(a) == 1:
            s = toseq(a[0])
            l = s.items()
            if not l:
                if "default" in k:
                    return k["default"]
                raise ValueError("empty sequence")
        else:
            l = list(a)
        if all(isint(x) for x in l) and key is None and any(isinstance(x, Sym) for x in l):
            r = l[0]
            for x in l[1:]:
                r = mkint(z3.If(zi(x) < zi(r), zi(x), zi(r)) if pick < 0 else z3.If(zi(x) > zi(r), zi(x), zi(r)))
            return r
        best = l[0]
        bk = call(key, best) if key else best
        for x in l[1:]:
            xk = call(key, x) if key else x
            if (xk < bk) if pick < 0 else (xk > bk):
                best, bk = x, xk
        return best
    return f


class SIter:
    """iterator over a symbolic sequence"""


def b_iter(x, *r):
    if r:
        out = []
        while len(out) < 64:
            v = call(x)
            if r[0] is None and (v is None or isinstance(v, (tuple, str, bytes, int))):
                if v is None:
                    return iter(out)
                out.append(v)
            else:
                raise Unsupported("two argument iter")
        raise Unsupported("two argument iter, unbounded")
    if isinstance(x, GenIter):
        return x
    g = GenIter(None)
    g.thunk = None
    g.out = toseq(x)
    return g


def b_next(g, *d):
    if isinstance(g, GenIter):
        return g.nxt(*d)
    return next(g, *d)


def b_bool(x=False):
    if isinstance(x, SBool):
        return x
    if isinstance(x, (SInt, SStr, SBytes, SRope)):
        return mkbool(tb(x))
    return bool(x)


def b_int(x=0, *a):
    if isinstance(x, SInt):
        return x
    if isinstance(x, SBool):
        return mkint(zi(x))
    if isinstance(x, SStr):
        raise Unsupported("int of text")
    return int(x, *a)


def b_str(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, SStr) and not x.b:
            return x
        if isinstance(x, SInt):
            return int_to_str(x)
        if isinstance(x, Sym):
            return fresh_text("%s", x)
        m = type(x).__str__
        if getattr(m, "_pv_qual", None):
            return m(x)
        if has_sym(x):
            return fresh_text("%s", x)
        return str(x)
    if isinstance(a[0], SBytes):
        return a[0].decode(*a[1:])
    return str(*a)


def b_repr(x):
    if isinstance(x, SInt):
        return int_to_str(x)
    if has_sym(x):
        return fresh_text("%r", x)
    return repr(x)


def b_bytes(*a):
    if len(a) == 1 and isinstance(a[0], (SBytes,)):
        return a[0]
    if len(a) == 1 and isinstance(a[0], SStr) and a[0].b:
        return a[0]
    if len(a) == 1 and isinstance(a[0], (PList, SSeq, tuple, GenIter)):
        l = toseq(a[0]).items()
        if not has_sym(l):
            return bytes(l)
        raise Unsupported("bytes of symbolic integers")
    return bytes(*a)


def b_hex(x):
    return hex(x) if not isinstance(x, Sym) else fresh_text("hex", x)


def b_ord(x):
    if isinstance(x, SStr):
        return mkint(z3.StrToCode(x.e))
    if isinstance(x, SBytes):
        return x.at(0)
    return ord(x)


def b_chr(x):
    if isinstance(x, SInt):
        return mkstr(z3.StrFromCode(x.e))
    return chr(x)


def b_hasattr(o, name):
    if isinstance(o, (SBytes, SRope)) or (isinstance(o, SStr)):
        return hasattr(b"" if isinstance(o, (SBytes, SRope)) or o.b else "", name)
    if isinstance(o, (SSeq, SInt, SBool)):
        return hasattr(_typeof(o), name)
    return hasattr(o, name)


def b_getattr(o, name, *d):
    return getattr(o, name, *d)


def b_setattr(o, name, v):
    return setattr_(o, name, v)


def b_divmod(a, b):
    return (a // b, a % b)


def b_abs(x):
    return abs(x)


def b_callable(x):
    return callable(x)


def b_memoryview(x):
    return x if isinstance(x, Sym) else memoryview(x)


def b_chain(*its):
    def run():
        out = []
        for it in its:
            out += toseq(it).segs
        return SSeq(out)
    return GenIter(run)


def b_chain_from(it):
    def run():
        s = toseq(it)
        return s.flatmap(lambda x: toseq(x))
    return GenIter(run)


def b_islice(it, *a):
    s = slice(*a)
    return GenIter(lambda: toseq(it).slice(s))


def b_starmap(f, it):
    return b_map(lambda t: call(f, *t), it)


def b_hash(x):
    return hash(x)


def b_print(*a, **k):
    p = core.CUR
    if p is not None and hasattr(p.driver, "on_print"):
        return p.driver.on_print(*a, **k)
    if p is not None and any(has_sym(x) for x in a):
        import sys
        f = k.get("file") or sys.stdout
        call(f.write, str_join(k.get("sep", " "), [b_str(x) for x in a]) + k.get("end", "\n"))
        return
    return print(*a, **k)


def b_reduce(f, it, *init):
    l = toseq(it).items()
    if init:
        acc = init[0]
    else:
        acc = l[0]
        l = l[1:]
    for x in l:
        acc = call(f, acc, x)
    return acc


MODELS = {
    len: b_len, range: b_range, isinstance: b_isinstance, type: b_type, tuple: b_tuple, list: b_list, set: b_set,
    frozenset: b_frozenset, dict: b_dict, collections.OrderedDict: b_odict, collections.defaultdict: b_defaultdict,
    zip: b_zip, itertools.zip_longest: b_zip_longest, enumerate: b_enumerate, map: b_map, filter: b_filter,
    sorted: b_sorted, reversed: b_reversed, any: b_any, all: b_all, sum: b_sum, min: _mm(-1), max: _mm(1),
    iter: b_iter, next: b_next, bool: b_bool, int: b_int, str: b_str, repr: b_repr, bytes: b_bytes, hex: b_hex,
    ord: b_ord, chr: b_chr, hasattr: b_hasattr, getattr: b_getattr, setattr: b_setattr, divmod: b_divmod,
    memoryview: b_memoryview, itertools.chain: b_chain, itertools.chain.from_iterable: b_chain_from,
    itertools.islice: b_islice, itertools.starmap: b_starmap, functools.reduce: b_reduce,
    _struct.Struct: mk_struct, print: b_print,
    _struct.unpack: lambda f, b: struct_unpack(f, b, 0, True) if isinstance(b, SBytes) else _struct.unpack(f, b),
    operator.eq: lambda a, b: cmp("==", a, b), operator.ne: lambda a, b: cmp("!=", a, b),
    operator.add: lambda a, b: binop("Add", a, b),
}


# ---------------------------------------------------------------- functions under contract

def fn(qual):
    def deco(f):
        if isinstance(f, (staticmethod, classmethod, property)):
            return f

        @functools.wraps(f)
        def w(*a, **k):
            p = core.CUR
            if p is not None:
                p.driver.called.add(qual)
                s = p.driver.summaries.get(qual)
                if s is not None and not (qual in p.driver.entry and qual not in p.entered_set):
                    p.driver.used.add(qual)
                    return s(*a, **k)
                p.entered_set.add(qual)
            return f(*a, **k)
        w._pv_qual = qual
        w._pv_raw = f
        return w
    return deco


def lam(f):
    return f
