"""C21: comparing two directory trees classifies every file exactly once"""
import os, random, tempfile
from pv.api import *

MODULES = ("javatools.dirutils",)


# ---------------------------------------------------------------- patterns

@contract
class Patterns(Contract):
    prop = "C21"
    name = "fnmatches"
    functions = ("javatools.dirutils:fnmatches",)
    summaries = {"fnmatch:fnmatch": lambda name, pat: abstract("fnmatch", (name, pat), "bool")}
    must_cover = ("match", "no match")

    def inputs(self, w):
        def gen(r):
            return r.choice(("", "", "*", "a*", "*.SF", "META-INF/*", "[ab]", "?", "ab", "[!a]*", "*/MANIFEST.MF"))
        return (w.str("entry", gen=lambda r: r.choice(("a", "ab", "b", "", "META-INF/K.SF", "./MANIFEST.MF", "x\n"))),
                w.seq("pattern", lambda w, k: w.str("text", gen=gen)))

    def run(self, L, inp):
        return bool(L.dirutils.fnmatches(inp[0], *inp[1]))

    def spec(self, inp):
        entry, pats = inp

        def matches(k):
            if symbolic():
                return abstract("fnmatch", (entry, pats[k]), "bool")
            import fnmatch
            return fnmatch.fnmatch(entry, pats[k])
        if exists(len(pats), lambda k: pats[k] != "" and matches(k)):
            cover("match")
            return True
        cover("no match")
        return False


# ---------------------------------------------------------------- the walk

# paths are tuples of names, the first the root they are relative to

def join(p, *names):
    for f in names:
        p = p + (f,)
    return p


def relpath(p, start):
    n = len(start)
    for k in range(n):
        ensure(p[k] == start[k], "a path below the root of its own side")
    return ("rel",) + p[n:]


def isdir(p):
    return abstract("isdir", (p[0], p[-1]), "bool")


class Dircmp:
    """two directories of the same path in both trees"""
    def __init__(self, inp, sub):
        self.left, self.right = ("left",) + sub, ("right",) + sub
        self.left_only, self.right_only = inp["left"], inp["right"]
        self.common_files, self.common_funny = inp["files"], inp["funny"]
        n = len(inp["dirs"])
        self.subdirs = Subs(inp["dirs"])


class Subs:
    def __init__(self, names):
        self.names = names

    def keys(self):
        return self.names

    def __iter__(self):
        return iter(self.names)

    def __getitem__(self, name):
        return name

    def values(self):
        return self.names

    def items(self):
        return table(len(self.names), lambda k: (self.names[k], self.names[k]), list)


def walked(p):
    """the directories below p, each with its files"""
    name, side = p[-1], p[0]
    n = abstract("directories", (side, name), "int")
    assume(n >= 0)

    def at(j):
        m = abstract("files", (side, name, j), "int")
        assume(m >= 0)
        return (p + (abstract("below", (side, name, j), "opaque"),), ["?"],
                table(m, lambda i: abstract("file", (side, name, j, i), "opaque"), list))
    return table(n, at)


def events_below(name):
    """what the comparison of a common directory gives"""
    n = abstract("events", (name,), "int")
    assume(n >= 0)
    return table(n, lambda j: ("event", abstract("event", (name, j), "str")))


@contract
class Walk(Contract):
    """any directory pair with entries of one kind; the walk below one-sided directories and the comparison of
    common ones by their contracts"""
    prop = "C21"
    name = "tree walk"
    functions = ("javatools.dirutils:_gen_from_dircmp",)
    order_free = True
    look_back = False
    split_inst = False
    concrete = False

    def inputs(self, w):
        part = w.choice("part", ("left", "right", "files", "dirs", "funny"))

        def names(nm):
            return w.seq(nm, lambda w, k: w.opaque("name"), kind=list) if nm == part else []
        return {"left": names("left"), "right": names("right"), "files": names("files"), "funny": names("funny"), "dirs": names("dirs"),
                "sub": w.choice("sub", ((), ("d", "e")))}

    def state(self, f):
        return abstract("comparison", (f,), "int")

    def callee(self, L, inp):
        def cmpfiles(a, b, common, shallow=True):
            ensure(not shallow, "contents are compared")
            ensure(a == ("left",) + inp["sub"] and b == ("right",) + inp["sub"], "the two directories")
            files = inp["files"]
            return tuple(flat(len(common), lambda k, j=j: (common[k],) if self.state(common[k]) == j else (), list) for j in (0, 1, 2))

        def below(dc, lpath, rpath):
            ensure(lpath == ("left",) and rpath == ("right",), "the same roots")
            return iter(events_below(dc))
        return {"filecmp:cmpfiles": cmpfiles, "posixpath:join": join, "posixpath:relpath": relpath, "genericpath:isdir": isdir,
                "os:walk": lambda p: walked(p), "javatools.dirutils:_gen_from_dircmp": below}

    def run(self, L, inp):
        for k in ("files",):
            assume_forall(len(inp[k]), lambda j: 0 <= self.state(inp[k][j]) <= 2)
        return tuple(L.dirutils._gen_from_dircmp(Dircmp(inp, inp["sub"]), ("left",), ("right",)))

    def spec(self, inp):
        sub = inp["sub"]
        out = ()
        for side, word in (("left", "left only"), ("right", "right only")):
            def mixed(f):
                return isdir(("left", f)) != isdir(("right", f))

            def one(f, side=side, word=word):
                if not isdir((side, f)):
                    return ((word, ("rel",) + sub + (f,)),)
                ds = walked((side,) + sub + (f,))
                return flat(len(ds), lambda j: table(len(ds[j][2]), lambda i: (word, ("rel",) + ds[j][0][1:] + (ds[j][2][i],))))
            names, funny = inp[side], inp["funny"]
            out = out + tuple(flat(len(names), lambda k, names=names, one=one: one(names[k]))) + \
                tuple(flat(len(funny), lambda k, one=one: one(funny[k]) if mixed(funny[k]) else ()))
        files = inp["files"]
        for state, word in ((1, "changed"), (2, "changed"), (0, "same")):
            out = out + tuple(flat(len(files), lambda k, state=state, word=word:
                                   ((word, ("rel",) + sub + (files[k],)),) if self.state(files[k]) == state else ()))
        dirs = inp["dirs"]
        return out + tuple(flat(len(dirs), lambda k: events_below(dirs[k])))


# ---------------------------------------------------------------- collection

@contract
class Collect(Contract):
    prop = "C21"
    name = "collected lists"
    functions = ("javatools.dirutils:collect_compare_into", "javatools.dirutils:collect_compare")
    must_cover = ("into", "plain", "some")

    def inputs(self, w):
        return (w.seq("event", lambda w, k: (w.choice("kind", ("left only", "right only", "changed", "same")), w.str("name"))),
                w.choice("how", ("into", "plain", "some")))

    def run(self, L, inp):
        events, how = inp
        D = L.dirutils

        def compare(left, right):
            ensure((left, right) == ("l", "r"), "the directories")
            return iter(events)
        save = D.compare
        D.compare = compare
        cover(how)
        try:
            if how == "plain":
                return D.collect_compare("l", "r")
            if how == "some":
                return D.collect_compare_into("l", "r", None, ["b"], None, ["d"])
            return D.collect_compare_into("l", "r", ["a"], ["b"], ["c"], ["d"])
        finally:
            D.compare = save

    def spec(self, inp):
        events, how = inp
        out = []
        for pre, kind in (("a", "right only"), ("b", "left only"), ("c", "changed"), ("d", "same")):
            if how == "some" and pre in "ac":
                out.append(None)
                continue
            got = flat(len(events), lambda k, kind=kind: (events[k][1],) if events[k][0] == kind else (), list)
            out.append(got if how == "plain" else [pre] + got)
        return tuple(out)


# ---------------------------------------------------------------- real trees

@contract
class Trees(Contract):
    """real directory trees against what was put in them, also after a file was changed within its size and time"""
    prop = "C21"
    name = "trees"
    functions = ("javatools.dirutils:compare", "javatools.dirutils:_gen_from_dircmp", "javatools.dirutils:collect_compare")
    symbolic = False
    bound = "random trees up to three directories deep with up to four names each"
    must_cover = ("left only", "right only", "changed", "same", "mixed", "deep one-sided", "two common directories", "same size", "again")
    cases_quick = 250
    cases_thorough = 4000

    def inputs(self, w):
        return (w.int("seed", 0, 2 ** 31),)

    NAMES = ("a", "b", "CVS", ".git", "a b", "RCS", "z\u00e9", "same", "*")

    def content(self, r):
        return r.choice((b"", b"x", b"y", b"\r\n", b"\n", b"\xff\xfe", b"ab", b"ba", b"z" * 9000, b"z" * 8999 + b"y"))

    def tree(self, r, depth):
        out = {}
        for name in r.sample(self.NAMES, r.randrange(5)):
            out[name] = self.tree(r, depth - 1) if depth and r.random() < 0.45 else self.content(r)
        return out

    def other(self, r, t, depth):
        out = {}
        for name, v in t.items():
            k = r.random()
            if k < 0.12:
                continue
            if k < 0.18:
                out[name] = self.content(r) if isinstance(v, dict) else self.tree(r, depth)
            elif isinstance(v, dict):
                out[name] = self.other(r, v, depth - 1)
            else:
                out[name] = v if k < 0.6 else self.content(r)
        if r.random() < 0.5:
            for name, v in self.tree(r, depth).items():
                out.setdefault(name, v)
        return out

    def write(self, t, path):
        os.mkdir(path)
        for name, v in t.items():
            p = os.path.join(path, name)
            if isinstance(v, dict):
                self.write(v, p)
            else:
                self.put(p, v)

    def put(self, p, v):
        with open(p, "wb") as f:
            f.write(v)
        os.utime(p, (1000000, 1000000))

    def make(self, inp):
        r = random.Random(inp[0])
        left = self.tree(r, 2)
        right = self.other(r, left, 2)
        return (right, left) if r.random() < 0.3 else (left, right)

    def files(self, t, at=""):
        out = {}
        for name, v in t.items():
            if isinstance(v, dict):
                out.update(self.files(v, at + name + "/"))
            else:
                out[at + name] = v
        return out

    def expected(self, left, right):
        lf, rf = self.files(left), self.files(right)
        out = []
        for f in sorted(set(lf) | set(rf)):
            if f not in rf:
                out.append(("left only", f))
            elif f not in lf:
                out.append(("right only", f))
            else:
                out.append(("same" if lf[f] == rf[f] else "changed", f))
        return sorted(out)

    def note_cases(self, left, right, n=0):
        both = [k for k in left if k in right]
        dirs = [k for k in both if isinstance(left[k], dict) and isinstance(right[k], dict)]
        if len(dirs) > 1:
            cover("two common directories")
        for k in both:
            if isinstance(left[k], dict) != isinstance(right[k], dict):
                cover("mixed")
            elif isinstance(left[k], bytes) and left[k] != right[k] and len(left[k]) == len(right[k]):
                cover("same size")
        for k in left:
            if k not in right and isinstance(left[k], dict) and any(isinstance(v, dict) and v for v in left[k].values()):
                cover("deep one-sided")
        for k in dirs:
            self.note_cases(left[k], right[k])

    def flip(self, left, right):
        """a file of both sides whose content can be exchanged for another of its size"""
        lf, rf = self.files(left), self.files(right)
        for f in sorted(lf):
            if f in rf and lf[f] and lf[f] == rf[f]:
                return f
        return None

    def run(self, L, inp):
        left, right = self.make(inp)
        with tempfile.TemporaryDirectory() as d:
            lp, rp = os.path.join(d, "l"), os.path.join(d, "r")
            self.write(left, lp)
            self.write(right, rp)

            def go():
                return sorted((e, os.path.normpath(p)) for e, p in L.dirutils.compare(lp, rp))
            one = go()
            lists = [sorted(os.path.normpath(p) for p in g) for g in L.dirutils.collect_compare(lp, rp)]
            again = None
            f = self.flip(left, right)
            if f is not None:
                self.put(os.path.join(lp, f), b"#" * len(self.files(left)[f]))
                again = go()
            return one, lists, again

    def spec(self, inp):
        left, right = self.make(inp)
        one = self.expected(left, right)
        self.note_cases(left, right)
        for e, f in one:
            cover(e)
        lists = [sorted(p for e, p in one if e == kind) for kind in ("right only", "left only", "changed", "same")]
        f = self.flip(left, right)
        again = None
        if f is not None:
            cover("again")
            again = sorted([x for x in one if x[1] != f] + [("changed", f)])
        return one, lists, again
