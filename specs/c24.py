"""C24: provided and required APIs are complete and disjoint"""
import contextlib, fnmatch, io, json, os, random, tempfile, zipfile
from pv.api import *

MODULES = ("javatools", "javatools.pack", "javatools.opcodes", "javatools.dirutils", "javatools.ziputils", "javatools.change", "javatools.manifest",
           "javatools.classinfo", "javatools.jarinfo", "javatools.distinfo")

CLASS, FIELD, METHOD, IMETHOD = 7, 9, 10, 11
API = (CLASS, FIELD, METHOD, IMETHOD)


# ---------------------------------------------------------------- one class

class Member:
    def __init__(self, public, ident):
        self.public, self.ident = public, ident

    def is_public(self):
        return self.public

    def pretty_identifier(self):
        return self.ident


@contract
class Provides(Contract):
    """a class with any number of fields and methods"""
    prop = "C24"
    name = "provided by a class"
    functions = ("javatools:JavaClassInfo._get_provides",)
    summaries = {"javatools:JavaClassInfo.pretty_this": lambda self: abstract("this", (), "str")}
    concrete = False

    def inputs(self, w):
        def member(w, k):
            return Member(w.bool("public"), w.str("identifier", lo=1))
        return (w.seq("field", member), w.seq("method", member), w.bool("private"))

    def run(self, L, inp):
        ci = L.jt.JavaClassInfo()
        ci.fields, ci.methods = inp[0], inp[1]
        return tuple(ci._get_provides(inp[2]))

    def spec(self, inp):
        fields, methods, private = inp
        me = abstract("this", (), "str")

        def shown(ms):
            return tuple(flat(len(ms), lambda k: (me + "." + ms[k].ident,) if private or ms[k].public else ()))
        return (me,) + shown(fields) + shown(methods)


ARRAYS = {"[I": None, "[[J": None, "[Lp.X;": "p.X", "[[Lp.X$Y;": "p.X$Y", "[[[LQ;": "Q", "[Z": None,
          "[Lp.X;.clone():java.lang.Object": "p.X", "[[D.clone():java.lang.Object": None, "[[Lp.X;.clone():java.lang.Object": "p.X"}
KINDS = ("class", "field", "method", "interface method", "other", "second slot") + tuple(ARRAYS)
TYPE = {"class": CLASS, "field": FIELD, "method": METHOD, "interface method": IMETHOD, "other": 1, "second slot": None}


def tag(kind):
    if kind in TYPE:
        return TYPE[kind]
    return METHOD if "." in kind and "(" in kind else CLASS


@contract
class Requires(Contract):
    """a constant pool of any length; the texts of its entries by the contracts of C07"""
    prop = "C24"
    name = "required by a class"
    functions = ("javatools:JavaClassInfo._get_requires", "javatools:JavaConstantPool.constants")
    concrete = False
    split_inst = False
    must_cover = ("required", "provided", "element class", "primitive elements")

    def inputs(self, w):
        return (w.names("provided"), w.seq("constant", lambda w, k: (w.choice("kind", KINDS), w.str("text", lo=1))))

    def callee(self, L, inp):
        provided, pool = inp

        def get_provides(self, ignored=(), private=False):
            ensure(private, "private members are provided, too")
            ensure(len(ignored) == 0, "nothing is ignored")
            return list(provided)

        def pretty(self, i):
            kind, text = pool[i - 1]
            return kind if kind in ARRAYS else text
        return {"javatools:JavaClassInfo.get_provides": get_provides, "javatools:JavaConstantPool.pretty_deref_const": pretty,
                "javatools:JavaConstantPool.deref_const": lambda self, i: ("dereferenced", i)}

    def run(self, L, inp):
        pool = inp[1]
        assume_forall(len(pool), lambda k: pool[k][1][0] != "[")
        ci = L.jt.JavaClassInfo()
        # the first slot of a pool is unused
        ci.cpool.consts = ((None, None),) + tuple(flat(len(pool), lambda k: ((tag(pool[k][0]), "value"),)))
        return tuple(ci._get_requires())

    def spec(self, inp):
        provided, pool = inp

        def one(k):
            kind, text = pool[k]
            if kind in ("other", "second slot"):
                return ()
            if kind in ARRAYS:
                text = ARRAYS[kind]
                if text is None:
                    cover("primitive elements")
                    return ()
                cover("element class")
            if text in provided:
                cover("provided")
                return ()
            cover("required")
            return (text,)
        return tuple(flat(len(pool), one))


@contract
class Filtered(Contract):
    """whatever was asked for before"""
    prop = "C24"
    name = "ignored names"
    functions = ("javatools:JavaClassInfo.get_provides", "javatools:JavaClassInfo.get_requires")
    concrete = False
    split_inst = False
    order_free = True

    def inputs(self, w):
        return {"public": w.names("public"), "private": w.names("private"), "required": w.names("required"),
                "before": w.choice("before", ("nothing", "public", "private", "required")),
                "ask": w.choice("ask", ("public", "private", "required")),
                "patterns": w.choice("patterns", (0, 1, 2)), "p0": w.str("p0"), "p1": w.str("p1")}

    def callee(self, L, inp):
        return {"javatools:JavaClassInfo._get_provides": lambda self, private=False: iter(inp["private" if private else "public"]),
                "javatools:JavaClassInfo._get_requires": lambda self: iter(inp["required"]),
                "javatools.dirutils:fnmatches": lambda entry, *pats: self.matched(entry, pats)}

    def matched(self, entry, pats):
        out = False
        for p in pats:
            if abstract("match", (entry, p), "bool"):
                out = True
        return out

    def patterns(self, inp):
        return (inp["p0"], inp["p1"])[:inp["patterns"]]

    def ask(self, ci, what, pats):
        if what == "required":
            return ci.get_requires(pats)
        if what != "nothing":
            return ci.get_provides(pats, private=what == "private")

    def run(self, L, inp):
        ci = L.jt.JavaClassInfo()
        self.ask(ci, inp["before"], ())
        return tuple(self.ask(ci, inp["ask"], self.patterns(inp)))

    def spec(self, inp):
        names = inp[inp["ask"]]

        def one(k):
            x = names[k]
            if x in names[:k]:
                return ()
            return () if self.matched(x, self.patterns(inp)) else (x,)
        return tuple(flat(len(names), one))


# ---------------------------------------------------------------- real classes, jars and distributions

DESCS = (("()V", "()", "void"), ("(I[JLp/X;)Lp/Y;", "(int,long[],p.X)", "p.Y"), ("([[Lp/X;)[B", "(p.X[][])", "byte[]"), ("(ZCSDF)Z", "(boolean,char,short,double,float)", "boolean"))
TYPES = (("I", "int"), ("[J", "long[]"), ("Lp/X;", "p.X"), ("[[Lq/Z;", "q.Z[][]"))
NAMES = ("p/X", "p/Y", "Q", "p/X$1", "java/lang/Object", "z/Far")


class Shape:
    """a class with members and references: the file, and what it provides and requires"""
    def __init__(self, r, name):
        from specs.javaclass import ClassWriter
        me = name.replace("/", ".")
        sup = r.choice(("java/lang/Object", "p/X", "z/Far"))
        c = ClassWriter(name, sup, version=(0, 52), pad=r.choice((0, 2)))
        self.public, self.private, named = {me}, {me}, {me, sup.replace("/", ".")}
        for k in range(r.choice((0, 1, 3))):
            d, t = r.choice(TYPES)
            f, flags = "f%d" % r.randrange(3), r.choice((0x1, 0x2, 0x4, 0x0, 0x9, 0x1a))
            c.field(flags, f, d)
            self.note("%s.%s:%s" % (me, f, t), flags)
        for k in range(r.choice((0, 1, 3))):
            d, a, t = r.choice(DESCS)
            m, flags = r.choice(("m0", "m1", "<init>")), r.choice((0x1, 0x2, 0x4, 0x0, 0x1041, 0x401, 0x9))
            c.method(flags, m, d)
            self.note("%s.%s%s:%s" % (me, m, a, t), flags)
        for k in range(r.choice((0, 1, 3, 6))):
            n = r.choice(NAMES + (name,))
            pn = n.replace("/", ".")
            what = r.choice(("class", "field", "method", "imethod", "array", "array method", "primitives", "text", "wide"))
            if what == "class":
                c.cls(n)
                named.add(pn)
            elif what == "field":
                d, t = r.choice(TYPES)
                f = "f%d" % r.randrange(3)
                c.ref("field", n, f, d)
                named |= {pn, "%s.%s:%s" % (pn, f, t)}
            elif what in ("method", "imethod"):
                d, a, t = r.choice(DESCS)
                m = r.choice(("m0", "m1", "<init>"))
                c.ref(what, n, m, d)
                named |= {pn, "%s.%s%s:%s" % (pn, m, a, t)}
            elif what == "array":
                c.cls("[" * r.choice((1, 1, 2, 3)) + "L" + n + ";")
                named.add(pn)
            elif what == "array method":
                c.ref("method", "[" * r.choice((1, 2)) + "L" + n + ";", "clone", "()Ljava/lang/Object;")
                named.add(pn)
            elif what == "primitives":
                x = "[" * r.choice((1, 2)) + r.choice("BCDFIJSZ")
                c.cls(x)
                if r.random() < 0.5:
                    c.ref("method", x, "clone", "()Ljava/lang/Object;")
            elif what == "wide":
                c.long_(k)
                c.double_(k)
            else:
                c.string("text.of:%d" % k)
                c.nat("lonely", "I")
        self.required = named - self.private
        self.data = c.bytes()

    def note(self, x, flags):
        self.private.add(x)
        if flags & 1:
            self.public.add(x)


def kept(names, pats):
    return sorted(n for n in names if not any(p and fnmatch.fnmatchcase(n, p) for p in pats))


PATTERNS = ((), ("",), ("p.*",), ("java.*", "z.*"), ("*.f0:*",), ("*(*",), ("P.*", "?"), ("*",), ("p.X",))


def run_main(main, args):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        main(["tool"] + args)
    return out.getvalue()


def listed(text):
    """the indented lines of a listing"""
    return sorted(x.strip() for x in text.splitlines() if x[:1] == " ")


class Real(Contract):
    prop = "C24"
    symbolic = False

    def inputs(self, w):
        return (w.int("seed", 0, 2 ** 31), w.choice("patterns", PATTERNS))


@contract
class RealClass(Real):
    name = "real classes"
    functions = ("javatools:JavaClassInfo.get_provides", "javatools:JavaClassInfo.get_requires", "javatools.classinfo:main")
    bound = "drawn classes of up to 3 fields, 3 methods and 6 references"
    cases_quick = 500

    def run(self, L, inp):
        r = random.Random(inp[0])
        s = Shape(r, r.choice(NAMES[:4]))
        pats = inp[1]
        ci = L.jt.unpack_class(s.data)
        out = []
        for private in r.choice(((False, True), (True, False))):
            out.append((private, sorted(ci.get_provides(pats, private=private)) == kept(s.private if private else s.public, pats)))
        out.append(sorted(ci.get_requires(pats)) == kept(s.required, pats))
        out.append(sorted(ci.get_requires()) == kept(s.required, ()))
        with tempfile.TemporaryDirectory() as tmp:
            fn = os.path.join(tmp, "x.class")
            with open(fn, "wb") as f:
                f.write(s.data)
            args = ["--api-ignore=" + p for p in pats] + [fn]
            out.append(listed(run_main(L.classinfo.main, ["--class-provides"] + args)) == kept(s.public, pats))
            out.append(listed(run_main(L.classinfo.main, ["--class-requires"] + args)) == kept(s.required, pats))
            d = json.loads(run_main(L.classinfo.main, ["--json", "--class-requires", "--class-provides"] + args))
            out.append((sorted(d["class_provides"]), sorted(d["class_requires"])) == (kept(s.public, pats), kept(s.required, pats)))
        return out

    def spec(self, inp):
        r = random.Random(inp[0])
        Shape(r, r.choice(NAMES[:4]))
        order = r.choice(((False, True), (True, False)))
        return [(order[0], True), (order[1], True)] + [True] * 5


def draw_classes(r, top):
    """entry -> class; several entries may hold the same class"""
    out = {}
    for k in range(r.choice(top)):
        n = r.choice(NAMES[:4])
        out[r.choice((n + ".class", "WEB-INF/classes/" + n + ".class", "v2/" + n + ".class"))] = Shape(r, n)
    return out


OTHERS = {"META-INF/MANIFEST.MF": b"Manifest-Version: 1.0\n\n", "a.txt": b"class", "p/X.classes": b"junk", "lib/": b""}


def jar_bytes(r, classes):
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w") as z:
        ents = [(n, s.data) for n, s in classes.items()] + [x for x in OTHERS.items() if r.random() < 0.5]
        r.shuffle(ents)
        for n, d in ents:
            z.writestr(n, d, r.choice((zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED)))
    return b.getvalue()


def jar_api(classes):
    """(name -> entries providing it, name -> entries requiring it)"""
    inside = set()
    for s in classes.values():
        inside |= s.private
    prov, req = {}, {}
    for e, s in classes.items():
        for n in s.public:
            prov.setdefault(n, []).append(["class.provides", e])
        for n in s.required:
            if n not in inside:
                req.setdefault(n, []).append(["class.requires", e])
    return prov, req


def norm(d):
    """who provides or requires each name, whatever the order"""
    def key(v):
        if isinstance(v, (list, tuple)):
            v = [key(x) for x in v]
            return sorted(v, key=repr) if v and isinstance(v[0], list) else v
        if isinstance(v, dict):
            return norm(v)
        return v
    return {k: sorted((key(x) for x in v), key=repr) for k, v in d.items()}


def only(d, pats):
    ks = kept(d, pats)
    return {k: d[k] for k in ks}


@contract
class RealJar(Real):
    name = "real jars"
    functions = ("javatools.jarinfo:JarInfo._collect_requires_provides", "javatools.jarinfo:JarInfo.get_requires",
                 "javatools.jarinfo:JarInfo.get_provides", "javatools.jarinfo:main")
    bound = "drawn jars of up to 4 classes and 4 other entries"
    cases_quick = 250

    def check(self, prov, req, got_prov, got_req, pats):
        ensure_eq(norm(got_prov), norm(only(prov, pats)), "what is provided, and by what")
        ensure_eq(norm(got_req), norm(only(req, pats)), "what is required, and by what")

    def run(self, L, inp):
        r = random.Random(inp[0])
        pats = inp[1]
        classes = draw_classes(r, (0, 1, 2, 4))
        prov, req = jar_api(classes)
        with tempfile.TemporaryDirectory() as tmp:
            fn = os.path.join(tmp, "x.jar")
            with open(fn, "wb") as f:
                f.write(jar_bytes(r, classes))
            with L.jarinfo.JarInfo(fn) as ji:
                if r.random() < 0.5:
                    got = ji.get_provides(pats), ji.get_requires(pats)
                else:
                    got = (ji.get_requires(pats), ji.get_provides(pats))[::-1]
                self.check(prov, req, got[0], got[1], pats)
                self.check(prov, req, ji.get_provides(), ji.get_requires(), ())
            args = ["--api-ignore=" + p for p in pats] + [fn]
            ensure_eq(listed(run_main(L.jarinfo.main, ["--jar-provides"] + args)), kept(prov, pats), "the provided names are printed")
            ensure_eq(listed(run_main(L.jarinfo.main, ["--jar-requires"] + args)), kept(req, pats), "the required names are printed")
            d = json.loads(run_main(L.jarinfo.main, ["--json", "--jar-requires", "--jar-provides"] + args))
            self.check(prov, req, d["jar.provides"], d["jar.requires"], pats)

    def spec(self, inp):
        return None


@contract
class RealDist(RealJar):
    name = "real distributions"
    functions = ("javatools.distinfo:DistInfo._collect_requires_provides", "javatools.distinfo:DistInfo.get_requires",
                 "javatools.distinfo:DistInfo.get_provides", "javatools.distinfo:main")
    bound = "drawn distributions of up to 3 jars and 3 classes, as a directory or as a zip"
    cases_quick = 200

    def run(self, L, inp):
        r = random.Random(inp[0])
        pats = inp[1]
        jars = {n: draw_classes(r, (0, 1, 2)) for n in r.sample(("a.jar", "lib/b.jar", "lib/c.war", "x/d.ear", "no.zip"), r.choice((0, 1, 2, 3)))}
        classes = draw_classes(r, (0, 1, 3))
        files = {n: jar_bytes(r, c) for n, c in jars.items()}
        files.update((n, s.data) for n, s in classes.items())
        files["notes.txt"] = b"x"
        jars.pop("no.zip", None)
        prov, req, inside = {}, {}, set()
        for e, c in jars.items():
            p, q = jar_api(c)
            inside |= set(p)
            for n, v in p.items():
                prov.setdefault(n, []).append(["jar.provides", e, v])
            for n, v in q.items():
                req.setdefault(n, []).append(["jar.requires", e, v])
        for e, s in classes.items():
            inside |= s.private
            for n in s.public:
                prov.setdefault(n, []).append(["class.provides", e])
            for n in s.required:
                req.setdefault(n, []).append(["class.requires", e])
        req = {n: v for n, v in req.items() if n not in inside}
        with tempfile.TemporaryDirectory() as tmp:
            path = os.path.join(tmp, "dist")
            if r.random() < 0.7:
                for n, d in files.items():
                    fn = os.path.join(path, n)
                    os.makedirs(os.path.dirname(fn), exist_ok=True)
                    with open(fn, "wb") as f:
                        f.write(d)
            else:
                with zipfile.ZipFile(path, "w") as z:
                    for n, d in files.items():
                        z.writestr(n, d)
            di = L.distinfo.DistInfo(path)
            if r.random() < 0.5:
                got = di.get_provides(pats), di.get_requires(pats)
            else:
                got = (di.get_requires(pats), di.get_provides(pats))[::-1]
            self.check(prov, req, got[0], got[1], pats)
            self.check(prov, req, di.get_provides(), di.get_requires(), ())
            di.close()
            args = ["--api-ignore=" + p for p in pats] + [path]
            ensure_eq(listed(run_main(L.distinfo.main, ["--dist-provides"] + args)), kept(prov, pats), "the provided names are printed")
            ensure_eq(listed(run_main(L.distinfo.main, ["--dist-requires"] + args)), kept(req, pats), "the required names are printed")
            d = json.loads(run_main(L.distinfo.main, ["--json", "--dist-requires", "--dist-provides"] + args))
            self.check(prov, req, d["dist.provides"], d["dist.requires"], pats)
