"""C10: a combined change is changed exactly when a child is, and ignored accordingly"""
from pv.api import *

MODULES = ("javatools.change",)


class Marks:
    """ghost state: the children something was done to.  For the prover, a prefix of them (others are not accepted)."""
    def __init__(self):
        self.count = 0
        self.seen = []

    def add(self, k):
        if symbolic():
            self.count = self.count + 1
            ensure(k == self.count - 1, "children are treated in order, each once")
        else:
            self.seen.append(k)

    def has(self, k):
        if symbolic():
            return k < self.count
        return k in self.seen

    def all(self, n):
        """each of n children"""
        if symbolic():
            return self.count == n
        return sorted(set(self.seen)) == list(range(n))


class Log:
    """what was done to the children"""
    def __init__(self):
        self.checked = Marks()
        self.cleared = Marks()


class Options:
    def __init__(self, tag):
        self.tag = tag


def child_class(L, base=None):
    """an arbitrary change: what it says before and after being checked and under the options is unknown"""
    C = L.change

    class Child(C.Change if base is None else base):
        def __init__(self, k, log, v):
            self.k, self.log, self.v = k, log, v
            self.changed = False
            self.description = None
            self.entry = v["entry"]
            self.label = v["label"]

        def check(self):
            self.log.checked.add(self.k)

        def is_change(self):
            if self.log.cleared.has(self.k):
                return False
            if self.log.checked.has(self.k):
                return self.v["changed"]
            return self.v["before"]

        def is_ignored(self, options):
            if self.log.cleared.has(self.k):
                return False
            if options.tag == 1:
                return self.v["ignored1"]
            return self.v["ignored2"]

        def get_description(self):
            if self.log.cleared.has(self.k):
                return "cleared"
            return self.v["desc"]

        def clear(self):
            self.log.cleared.add(self.k)

    return Child


def values(w):
    return {"before": w.bool("before"), "changed": w.bool("changed"), "ignored1": w.bool("ignored1"), "ignored2": w.bool("ignored2"),
            "desc": w.str("desc", lo=1), "label": w.str("label"), "entry": w.str("entry")}


def parent_class(L, make):
    class Parent(L.change.SuperChange):
        def collect_impl(self):
            return make()
    return Parent


@contract
class Check(Contract):
    prop = "C10"
    name = "SuperChange.check"
    functions = ("javatools.change:SuperChange.check_impl", "javatools.change:GenericChange.check", "javatools.change:SuperChange.collect",
                 "javatools.change:Change.is_change")
    must_cover = ("changed", "unchanged")

    def inputs(self, w):
        ch = w.seq("child", lambda w, k: values(w))
        return (ch, Any("changed", lambda j: ch[j]["changed"]))

    def forms(self, inp):
        return {"c": lambda i, init: inp[1].at(i)}

    def run(self, L, inp):
        inp = inp[0]
        log = Log()
        Child = child_class(L)
        n = len(inp)
        sup = parent_class(L, lambda: table(n, lambda k: Child(k, log, inp[k])))(1, 2)
        sup.check()
        return (bool(sup.is_change()), bool(log.checked.all(n)), len(sup.collect()))

    def spec(self, inp):
        n = len(inp[0])
        r = inp[1].holds(n)
        cover("changed" if r else "unchanged")
        return (r, True, n)


@contract
class Collect(Contract):
    prop = "C10"
    name = "SuperChange.collect"
    functions = ("javatools.change:SuperChange.collect", "javatools.change:SuperChange.collect_impl")

    def inputs(self, w):
        return (w.len("n"), w.int("l"), w.int("r"), w.bool("force"))

    def run(self, L, inp):
        n, l, r, force = inp
        made = []

        def kind(k):
            def make(a, b):
                made.append(k)
                return (k, a, b)
            return make

        class Parent(L.change.SuperChange):
            change_types = table(n, kind)
        sup = Parent(l, r)
        a = sup.collect()
        b = sup.collect()
        once = list(made)
        c = sup.collect(force=True) if force else sup.collect()
        return (a, b, c, once)

    def spec(self, inp):
        n, l, r, force = inp
        want = table(n, lambda k: (k, l, r))
        return (want, want, want, table(n, lambda k: k, list))


@contract
class Ignored(Contract):
    prop = "C10"
    name = "SuperChange.is_ignored"
    functions = ("javatools.change:SuperChange.is_ignored", "javatools.change:SuperChange.collect", "javatools.change:Change.is_change")
    must_cover = ("unchanged", "ignored", "reported", "childless")

    def inputs(self, w):
        return (w.bool("self"), w.choice("options", (1, 2)), w.seq("child", lambda w, k: values(w)))

    def run(self, L, inp):
        me, tag, ch = inp
        log = Log()
        Child = child_class(L)
        n = len(ch)
        sup = parent_class(L, lambda: table(n, lambda k: Child(k, log, ch[k])))(1, 2)
        sup.changed = me
        return bool(sup.is_ignored(Options(tag)))

    def spec(self, inp):
        me, tag, ch = inp
        n = len(ch)
        if not me:
            cover("unchanged")
            return False
        if n == 0:
            cover("childless")
            return False
        bad = exists(n, lambda k: ch[k]["before"] and not (ch[k]["ignored1"] if tag == 1 else ch[k]["ignored2"]))
        cover("reported" if bad else "ignored")
        return not bad


@contract
class Generic(Contract):
    prop = "C10"
    name = "GenericChange.check"
    functions = ("javatools.change:GenericChange.check", "javatools.change:GenericChange.check_impl", "javatools.change:GenericChange.fn_data",
                 "javatools.change:GenericChange.fn_differ", "javatools.change:GenericChange.get_ldata", "javatools.change:GenericChange.get_rdata",
                 "javatools.change:Change.is_change")
    must_cover = ("differ", "same")

    def inputs(self, w):
        return (w.int("l"), w.int("r"), w.int("add"), w.bool("odd"))

    def run(self, L, inp):
        l, r, add, odd = inp

        class Plain(L.change.GenericChange):
            label = "x"

        class Custom(L.change.GenericChange):
            label = "x"

            def fn_data(self, d):
                return d + add

            def fn_differ(self, a, b):
                if odd:
                    return a < b
                return a != b
        out = []
        for cls in (Plain, Custom):
            c = cls(l, r)
            c.check()
            out.append(bool(c.is_change()))
            out.append(c.get_ldata())
            out.append(c.get_rdata())
            out.append(bool(c.is_ignored(None)))
        return tuple(out)

    def spec(self, inp):
        l, r, add, odd = inp
        cover("differ" if l != r else "same")
        return (l != r, l, r, False, (l < r) if odd else (l != r), l + add, r + add, False)


def flavours(L):
    C = L.change

    class Sub(C.Addition):
        pass
    return {"change": C.Change, "generic": C.GenericChange, "super": C.SuperChange, "addition": C.Addition, "removal": C.Removal,
            "sub": Sub}


@contract
class Kinds(Contract):
    """additions and removals always count as changes"""
    prop = "C10"
    name = "Addition, Removal"
    functions = ("javatools.change:Addition.is_change", "javatools.change:Removal.is_change", "javatools.change:Change.is_ignored")

    def inputs(self, w):
        return (w.choice("kind", ("change", "addition", "removal", "sub")), w.bool("changed"), w.bool("check"), w.bool("squash"), w.bool("ign"))

    def run(self, L, inp):
        kind, changed, check, sq, ign = inp
        o = flavours(L)[kind](1, 2)
        o.changed = changed
        if check:
            o.check()
        if sq:
            o = L.change.squash(o, is_ignored=ign)
            return (bool(o.is_change()), bool(o.is_ignored(None)))
        return (bool(o.is_change()), bool(o.is_ignored(None)))

    def spec(self, inp):
        kind, changed, check, sq, ign = inp
        return ((True if kind != "change" else changed), ign if sq else False)


def summary(L, o):
    C = L.change
    return (bool(o.is_change()), bool(o.is_ignored(Options(1))), o.get_description(), isinstance(o, C.Addition), isinstance(o, C.Removal),
            o.entry)


@contract
class Squash(Contract):
    prop = "C10"
    name = "squash"
    functions = ("javatools.change:squash", "javatools.change:SquashedChange.__init__", "javatools.change:SquashedChange.is_ignored",
                 "javatools.change:SquashedChange.is_change", "javatools.change:SquashedChange.clear", "javatools.change:Change.get_description")
    must_cover = ("options", "plain")

    def inputs(self, w):
        return (w.choice("kind", ("change", "addition", "removal")), w.choice("options", (None, 1, 2)), w.bool("given"), values(w))

    def run(self, L, inp):
        kind, tag, given, v = inp
        C = L.change
        o = child_class(L, {"change": C.Change, "addition": C.Addition, "removal": C.Removal}[kind])(0, Log(), v)
        o.check()
        s = C.squash(o, is_ignored=given) if tag is None else C.squash(o, options=Options(tag))
        o.clear()
        before = summary(L, s)
        s.clear()
        return (before, summary(L, s))

    def spec(self, inp):
        kind, tag, given, v = inp
        cover("plain" if tag is None else "options")
        ign = given if tag is None else (v["ignored1"] if tag == 1 else v["ignored2"])
        r = (v["changed"], ign, v["desc"], kind == "addition", kind == "removal", v["entry"])
        return (r, r)


@contract
class Description(Contract):
    """without a text of its own a change describes itself by label and verdict, also once summarised"""
    prop = "C10"
    name = "get_description"
    functions = ("javatools.change:Change.get_description", "javatools.change:squash")

    def inputs(self, w):
        return (w.choice("kind", ("change", "generic", "super", "addition", "removal")), w.bool("changed"), w.bool("own"), w.str("desc"), w.str("label"))

    def run(self, L, inp):
        kind, changed, own, desc, label = inp
        o = flavours(L)[kind](1, 2)
        o.changed = changed
        o.label = label
        if own:
            o.description = desc
        return (o.get_description(), L.change.squash(o).get_description())

    def spec(self, inp):
        kind, changed, own, desc, label = inp
        if own and desc != "":
            return (desc, desc)
        ch = changed or kind in ("addition", "removal")
        d = label + (" changed" if ch else " unchanged")
        return (d, d)


@contract
class SquashChildren(Contract):
    """the verdicts of the parent follow from those of its children (is_ignored above), which the summaries keep"""
    prop = "C10"
    name = "SuperChange.squash_children"
    functions = ("javatools.change:SuperChange.squash_children", "javatools.change:squash", "javatools.change:SuperChange.collect")

    def inputs(self, w):
        return (w.choice("options", (1, 2)), w.bool("changed"), w.seq("child", lambda w, k: values(w)))

    def run(self, L, inp):
        tag, changed, ch = inp
        log = Log()
        Child = child_class(L)
        n = len(ch)
        sup = parent_class(L, lambda: table(n, lambda k: Child(k, log, ch[k])))(1, 2)
        sup.changed = changed
        sup.squash_children(Options(tag))
        sub = sup.collect()
        return (tuple(summary(L, s) for s in sub), bool(log.cleared.all(n)), bool(sup.is_change()))

    def spec(self, inp):
        tag, changed, ch = inp
        n = len(ch)

        def one(k):
            v = ch[k]
            return (v["before"], v["ignored1"] if tag == 1 else v["ignored2"], v["desc"], False, False, v["entry"])
        return (table(n, one), True, changed)
