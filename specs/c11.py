"""C11: grouping changes by type loses and reorders nothing within a type"""
import random
from pv.api import *

MODULES = ("javatools.change",)


class A:
    def __init__(self, k):
        self.k = k


class B:
    def __init__(self, k):
        self.k = k


class C(A):
    """a subclass is a type of its own"""


class D:
    pass


TYPES = (A, B, C)
LISTS = ((), (A,), (B, A), (C,), (A, A), (D, C, B), (C, B, A), (A, D))


def items(w):
    def one(w, k):
        return (w.int("type", 0, 2), k)
    return w.seq("item", one)


def real(its):
    """the objects grouped: object k has the k-th type"""
    return table(len(its), lambda k: TYPES[its[k][0]](k))


def of_type(its, j, n=None):
    """positions of the items of type j, in order"""
    return flat(len(its) if n is None else n, lambda k: (k,) if its[k][0] == j else (), list)


class Grouping(Contract):
    prop = "C11"
    bound = "at most three distinct item types (the number of items is not bounded)"
    cases_quick = 600
    split_inst = False

    def forms(self, inp):
        its = inp[0]
        objs = inp[2]
        keys = self.keys

        def content(i, init):
            return DictForm([keys(t) for t in TYPES],
                            lambda t: self.count(inp, t).some(i),
                            lambda t: flat(i, lambda k: (objs[k],) if keys(type(objs[k])) == t else (), list))
        return {"content": content}

    def keys(self, t):
        return t

    def count(self, inp, t):
        return inp[3][[self.keys(x) for x in TYPES].index(t)]

    def draw(self, w):
        its = items(w)
        objs = real(its)
        seen = tuple(Any("type%d" % j, lambda k, j=j: its[k][0] == j) for j in range(3))
        return its, objs, seen


@contract
class ByType(Grouping):
    name = "collect_by_type"
    functions = ("javatools.change:collect_by_type",)
    which = "collect_by_type"
    must_cover = ("present", "absent")

    def inputs(self, w):
        ask = w.choice("ask", (0, 1, 2))
        its, objs, seen = self.draw(w)
        return (its, ask, objs, seen)

    def run(self, L, inp):
        d = getattr(L.change, self.which)(inp[2])
        t = self.keys(TYPES[inp[1]])
        if not symbolic():
            assert all(k in [self.keys(x) for x in TYPES] for k in d)
        return d.get(t)

    def spec(self, inp):
        its, j, objs, seen = inp
        n = len(its)
        if seen[j].some(n):
            cover("present")
            return flat(n, lambda k: (objs[k],) if its[k][0] == j else (), list)
        cover("absent")
        return None


@contract
class ByTypeName(ByType):
    name = "collect_by_typename"
    functions = ("javatools.change:collect_by_typename",)
    which = "collect_by_typename"

    def keys(self, t):
        return t.__name__


ORDERS = ((0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0))


class Iterate(Grouping):
    """the dict of collect_by_type (contract above) with its keys in any order"""
    name = "iterate_by_type"
    functions = ("javatools.change:iterate_by_type",)
    must_cover = ("items",)
    orders = ORDERS

    def __init__(self, types):
        self.types = types
        self.name = "iterate_by_type (%s)" % ",".join(t.__name__ for t in types)

    def inputs(self, w):
        order = w.choice("order", self.orders)
        its, objs, seen = self.draw(w)
        return (its, order, objs, seen)

    def callee(self, L, inp):
        its, order, objs, seen = inp

        def collect(obj_sequence, cache=None):
            n = len(its)
            ensure_eq(tuple(obj_sequence), objs, "the whole sequence is collected")
            ensure(cache is None, "into a new dict")
            return DictForm([TYPES[j] for j in order], lambda t: seen[TYPES.index(t)].some(n),
                            lambda t: flat(n, lambda k: (objs[k],) if type(objs[k]) == t else (), list), True).make()
        return {"javatools.change:collect_by_type": collect}

    def run(self, L, inp):
        return tuple(L.change.iterate_by_type(inp[2], self.types))

    def post(self, inp, got):
        its, order, objs, seen = inp
        n = len(its)
        ensure(got[0] == "ret", "no exception")
        cover("items")
        listed = []
        for t in self.types:
            if t in TYPES and TYPES.index(t) not in listed:
                listed.append(TYPES.index(t))
        if symbolic():
            want = ()
            for j in listed + [j for j in order if j not in listed]:
                if seen[j].some(n):
                    want = want + flat(n, lambda k, j=j: (objs[k],) if its[k][0] == j else ())
            ensure_eq(got[1], want, "items by type")
            return
        groups = []
        for x in got[1]:
            if not groups or type(groups[-1][-1]) is not type(x):
                groups.append([])
            groups[-1].append(x)
        order = [TYPES.index(type(g[0])) for g in groups]
        ensure(len(set(order)) == len(order), "items of one type are together")
        have = [j for j in listed if j in order]
        ensure(order[:len(have)] == have, "listed types first, in the listed order")
        for j in range(3):
            ensure_eq([x for g in groups for x in g if TYPES.index(type(x)) == j], [o for o, (t, _k) in zip(objs, its) if t == j],
                      "every item of a type once, in order")


for _l in LISTS:
    register(Iterate(_l))


@contract
class Alike(Contract):
    """items which equal each other, are empty, or cannot be hashed are items all the same"""
    prop = "C11"
    name = "items alike"
    functions = ("javatools.change:iterate_by_type", "javatools.change:collect_by_type", "javatools.change:collect_by_typename")
    symbolic = False
    bound = "drawn lists of up to twelve items of five types"
    must_cover = ("alike",)
    cases_quick = 300

    def inputs(self, w):
        return (w.int("seed", 0, 2 ** 31),)

    def make(self, inp):
        r = random.Random(inp[0])
        its = [r.choice((lambda: 1, lambda: 2, lambda: 0, lambda: True, lambda: False, lambda: "", lambda: "a", lambda: [], lambda: [1], lambda: None, lambda: ()))()
               for _ in range(r.randrange(13))]
        return its, r.sample((int, bool, str, list, float), r.randrange(6))

    def run(self, L, inp):
        its, types = self.make(inp)
        return list(L.change.iterate_by_type(iter(its), types)), L.change.collect_by_type(its), L.change.collect_by_typename(its)

    def post(self, inp, got):
        ensure(got[0] == "ret", "no exception: %r" % (got[1],))
        its, types = self.make(inp)
        out, by, named = got[1]
        if len(set(map(repr, its))) < len(its):
            cover("alike")
        kinds = set(map(type, its))
        order = []
        for x in out:
            if type(x) not in order:
                order.append(type(x))
        ensure([repr(x) for x in out] == [repr(x) for t in order for x in its if type(x) is t], "every item once, by type and in order: %r" % (out,))
        have = [t for t in types if t in kinds]
        ensure(order[:len(have)] == have, "listed types first")
        want = dict((t, [x for x in its if type(x) is t]) for t in kinds)
        ensure(repr(sorted(by.items(), key=repr)) == repr(sorted(want.items(), key=repr)), "by type: %r" % (by,))
        ensure(repr(sorted(named.items())) == repr(sorted((t.__name__, v) for t, v in want.items())), "by type name: %r" % (named,))


@contract
class Decorator(Contract):
    prop = "C11"
    name = "yield_sorted_by_type"
    functions = ("javatools.change:yield_sorted_by_type",)

    def inputs(self, w):
        return (w.choice("list", LISTS), w.int("x"), w.int("y"))

    def callee(self, L, inp):
        return {"javatools.change:iterate_by_type": lambda objs, types: ("by type", objs, tuple(types))}

    def run(self, L, inp):
        types, x, y = inp

        class Box:
            @L.change.yield_sorted_by_type(*types)
            def produce(self, x, y=0):
                return [A(x), B(y), A(y)]
        out = Box().produce(x, y=y)
        if symbolic():
            return (out[0], [(type(o), o.k) for o in out[1]], out[2])
        return [(type(o), o.k) for o in out]

    def spec(self, inp):
        types, x, y = inp
        its = [(A, x), (B, y), (A, y)]
        if symbolic():
            return ("by type", its, types)
        listed = []
        for t in types:
            if t not in listed:
                listed.append(t)
        r = [i for t in listed for i in its if i[0] is t]
        return r + [i for t in (A, B) if t not in listed for i in its if i[0] is t]
