"""C12: field, method and pool comparison accounts for every item on both sides"""
from pv.api import *

MODULES = ("javatools", "javatools.pack", "javatools.opcodes", "javatools.change", "javatools.classdiff")


class Member:
    def __init__(self, side, k, ident):
        self.side, self.k, self.ident = side, k, ident

    def get_identifier(self):
        return self.ident


class Owner:
    def __init__(self, members):
        self.fields = self.methods = members


class Members(Contract):
    """members with any identifiers"""
    prop = "C12"
    which = None
    bound = "at most three members on either side (their identifiers are not bounded)"
    must_cover = ("paired", "added", "removed", "shared")
    cases_quick = 1000
    maxpaths = 6000

    def inputs(self, w):
        def side(name):
            n = w.choice(name + ".members", (0, 1, 2, 3))
            if w.sym:
                return tuple([w.str("%s.ident%d" % (name, j)) for j in range(n)])
            return tuple([w.choice("%s.ident%d" % (name, j), ("a", "b", "c", "")) for j in range(n)])
        return (side("left"), side("right"))

    def run(self, L, inp):
        cls = getattr(L.classdiff, "Class%ssChange" % self.which)
        left = [Member(0, k, i) for k, i in enumerate(inp[0])]
        right = [Member(1, k, i) for k, i in enumerate(inp[1])]
        out = []
        whole = cls(Owner(left), Owner(right))
        for c in whole.collect():
            kind = [t for t in ("Added", "Removed", "Change") if type(c) is getattr(L.classdiff, self.which + t)]
            out.append((kind[0], [m and (m.side, m.k) for m in (c.ldata, c.rdata)]))
        return out

    def post(self, inp, got):
        left, right = inp
        ensure(got[0] != "raise", "the comparison is made")
        out = list(got[1])
        seen = {(0, k): 0 for k in range(len(left))}
        seen.update({(1, k): 0 for k in range(len(right))})
        for kind, (a, b) in out:
            ensure((a is None) == (kind == "Added") and (b is None) == (kind == "Removed"), "kind of change")
            ensure(a is None or a[0] == 0, "left member on the left")
            ensure(b is None or b[0] == 1, "right member on the right")
            for m in (a, b):
                if m is not None:
                    seen[m] += 1
            if kind == "Change":
                cover("paired")
                ensure(left[a[1]] == right[b[1]], "paired members have the same identity")
            else:
                cover(kind.lower())
        ensure(all(n == 1 for n in seen.values()), "every member is reported exactly once")
        for k1, (a, b) in out:
            for k2, (c, d) in out:
                if k1 == "Removed" and k2 == "Added":
                    ensure(left[a[1]] != right[d[1]], "members of the same identity are paired")
        if len(left) > 1 and left[0] == left[1]:
            cover("shared")


@contract
class Fields(Members):
    name = "ClassFieldsChange.collect"
    functions = ("javatools.classdiff:ClassMembersChange.collect_impl", "javatools.classdiff:ClassFieldsChange.__init__",
                 "javatools.classdiff:ClassFieldsChange.collect_impl")
    which = "Field"


@contract
class Methods(Members):
    name = "ClassMethodsChange.collect"
    functions = ("javatools.classdiff:ClassMembersChange.collect_impl", "javatools.classdiff:ClassMethodsChange.__init__",
                 "javatools.classdiff:ClassMethodsChange.collect_impl")
    which = "Method"


class Pool:
    """a pool of this size"""
    def __init__(self, side, size):
        self.consts = table(size, lambda k: (1, k))
        self.side = side

    def pretty_const(self, index):
        if symbolic():
            return (abstract("type" + self.side, [index]), abstract("value" + self.side, [index]))
        return ("type" + self.side + str(index), "value" + self.side + str(index))


@contract
class MergePools(Contract):
    prop = "C12"
    name = "pretty_merge_constants"
    functions = ("javatools.classdiff:pretty_merge_constants",)
    must_cover = ("left longer", "right longer", "same")
    cases_quick = 300

    def inputs(self, w):
        return (w.nat("left", None if w.sym else 6), w.nat("right", None if w.sym else 6))

    def run(self, L, inp):
        return tuple([tuple(x) for x in L.classdiff.pretty_merge_constants(Pool("L", inp[0]), Pool("R", inp[1]))]) \
            if not symbolic() else tuple(L.classdiff.pretty_merge_constants(Pool("L", inp[0]), Pool("R", inp[1])))

    def spec(self, inp):
        a, b = inp
        left, right = Pool("L", a), Pool("R", b)
        n = a if a > b else b
        cover("left longer" if a > b else "same" if a == b else "right longer")

        def row(k):
            i = k + 1
            return (i,) + (left.pretty_const(i) if i < a else (None, None)) + (right.pretty_const(i) if i < b else (None, None))
        return table(n - 1 if n > 0 else 0, row)


@contract
class PoolEquality(Contract):
    prop = "C12"
    name = "JavaConstantPool.__eq__"
    functions = ("javatools:JavaConstantPool.__eq__", "javatools:JavaConstantPool.__ne__")
    must_cover = ("equal", "different")
    cases_quick = 300

    def inputs(self, w):
        def pool(name):
            if w.sym:
                return w.seq(name, lambda w, k: (w.u1("tag"), w.opaque("value")))
            return tuple((w.choice("%s.t%d" % (name, j), (1, 3)), w.choice("%s.v%d" % (name, j), ("a", "b")))
                         for j in range(w.choice(name + ".n", (0, 1, 2))))
        return (pool("left"), pool("right"), w.bool("is a pool"))

    def run(self, L, inp):
        a = L.jt.JavaConstantPool()
        a.consts = inp[0]
        if not inp[2]:
            b = inp[1]
        else:
            b = L.jt.JavaConstantPool()
            b.consts = inp[1]
        return (bool(a == b), bool(a != b))

    def spec(self, inp):
        a, b, pool = inp
        same = pool and len(a) == len(b) and forall(len(a), lambda k: a[k] == b[k])
        cover("equal" if same else "different")
        return (bool(same), not same)


@contract
class Itself(Contract):
    """a class file with itself, decoded twice"""
    prop = "C12"
    name = "JavaClassChange of a class with itself"
    functions = ("javatools.classdiff:JavaClassChange", "javatools:JavaAnnotation.__eq__", "javatools:JavaExceptionInfo.__eq__")
    symbolic = False
    bound = "class files of the writer in specs/javaclass.py, with up to five fields and three methods"
    cases_quick = 150

    def inputs(self, w):
        return (w.int("seed", 0, 10**9), w.bool("same object"))

    def run(self, L, inp):
        import random
        from specs.javaclass import sample
        data = sample(random.Random(inp[0])).bytes()
        a = L.jt.unpack_class(data)
        b = a if inp[1] else L.jt.unpack_class(data)
        c = L.classdiff.JavaClassChange(a, b)
        c.check()
        return [x.get_description() for x in changed(c)]

    def spec(self, inp):
        return []


def changed(c):
    """the innermost changes"""
    subs = [x for x in c.collect() if x.is_change()] if hasattr(c, "collect_impl") else []
    if subs:
        return [y for x in subs for y in changed(x)]
    return [c] if c.is_change() else []
