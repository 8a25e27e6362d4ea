"""C23: a distribution comparison reports every differing file under the right kind"""
import contextlib, io, os, random, tempfile
from pv.api import *
from specs.c10 import Log, Marks, Options, child_class, values

MODULES = ("javatools", "javatools.pack", "javatools.opcodes", "javatools.change", "javatools.classdiff", "javatools.dirutils", "javatools.ziputils",
           "javatools.manifest", "javatools.jardiff", "javatools.distdiff")

EVENTS = ("left only", "right only", "changed", "same")
SUFFIX = {"left only": "Removed", "right only": "Added", "changed": "Change", "same": "Change"}
JARS = ("*.ear", "*.jar", "*.rar", "*.sar", "*.war")
TEXTS = ("*.bat", "*.cert", "*.cfg", "*.conf", "*.dtd", "*.html", "*.ini", "*.properties", "*.sh", "*.text", "*.txt", "*.xml")


def matched(entry, pats):
    return abstract("matched", (entry, ",".join(sorted(set(pats)))), "bool")


def kind_of(jar, cls, text, manifest, event, shallow):
    if not shallow:
        if jar:
            return "DistJar" + SUFFIX[event]
        if cls:
            return "DistClass" + SUFFIX[event]
        if event in ("changed", "same"):
            if text:
                return "DistTextChange"
            if manifest:
                return "DistManifestChange"
    return "DistContent" + SUFFIX[event]


@contract
class Classify(Contract):
    """any sequence of events; grouping by type (C11), comparing the trees and matching names (C21) by their contracts"""
    prop = "C23"
    name = "findings"
    functions = ("javatools.distdiff:DistChange.collect_impl", "javatools.distdiff:DistContentChange.__init__", "javatools.distdiff:DistChange.__init__")
    split_inst = False
    concrete = False

    def inputs(self, w):
        return (w.bool("shallow"), w.seq("event", lambda w, k: (w.choice("kind", EVENTS), w.opaque("name"))))

    def callee(self, L, inp):
        def compare(l, r):
            ensure((l, r) == ("left", "right"), "the two trees")
            return iter(inp[1])
        return {"javatools.change:iterate_by_type": lambda objs, types: iter(objs), "javatools.dirutils:compare": compare,
                "javatools.dirutils:fnmatches": lambda entry, *pats: matched(entry, pats)}

    def run(self, L, inp):
        out = L.distdiff.DistChange("left", "right", inp[0]).collect()

        def describe(c):
            return (type(c).__name__, c.ldata, c.rdata, c.entry, bool(c.is_change()))
        return table(len(out), lambda k: describe(out[k]))

    def spec(self, inp):
        shallow, events = inp

        def one(k):
            event, name = events[k]
            kind = kind_of(matched(name, JARS), matched(name, ("*.class",)), matched(name, TEXTS), matched(name, ("*/MANIFEST.MF",)), event, shallow)
            return (kind, "left", "right", name, event != "same")
        return table(len(events), one)


class Reporter:
    def __init__(self, options=None, log=None):
        self.options, self.log = options, log

    def subreporter(self, entry, name):
        return ("sub", entry, name)


@contract
class ReportFindings(Contract):
    """the findings of DistChange (contract above), those of changed classes and jars replaced by their reports"""
    prop = "C23"
    name = "findings of a report"
    functions = ("javatools.distdiff:DistReport.collect_impl", "javatools.distdiff:DistReport.__init__", "javatools.distdiff:DistJarReport.__init__",
                 "javatools.distdiff:DistClassReport.__init__")
    split_inst = False
    concrete = False
    TYPES = ("DistJarChange", "DistClassChange", "DistJarAdded", "DistClassRemoved", "DistTextChange", "DistManifestChange", "DistContentChange")

    def inputs(self, w):
        return (w.bool("shallow"), w.seq("finding", lambda w, k: (w.choice("type", self.TYPES), w.str("name", lo=1), w.bool("changed"))))

    def callee(self, L, inp):
        def found(me):
            ensure((me.ldata, me.rdata) == ("left", "right") and me.shallow == inp[0], "the two trees")
            return iter(table(len(inp[1]), lambda k: getattr(L.distdiff, inp[1][k][0])("left", "right", inp[1][k][1], inp[1][k][2])))
        return {"javatools.distdiff:DistChange.collect_impl": found, "javatools.change:iterate_by_type": lambda objs, types: iter(objs)}

    def run(self, L, inp):
        opts = Options(1)
        opts.shallow = inp[0]
        out = L.distdiff.DistReport("left", "right", Reporter(opts)).collect()

        def describe(c):
            return (type(c).__name__, c.ldata, c.rdata, c.entry, bool(c.is_change()),
                    c.reporter if type(c).__name__[-6:] == "Report" else None)
        return table(len(out), lambda k: describe(out[k]))

    def spec(self, inp):
        def one(k):
            t, name, changed = inp[1][k]
            if t == "DistJarChange" and changed:
                return ("DistJarReport", "left", "right", name, True, ("sub", name, "JarReport"))
            if t == "DistClassChange" and changed:
                return ("DistClassReport", "left", "right", name, True, ("sub", name, "JavaClassReport"))
            return (t, "left", "right", name, bool(changed or t in ("DistJarAdded", "DistClassRemoved")), None)
        return table(len(inp[1]), one)


# ---------------------------------------------------------------- verdicts

@contract
class Verdict(Contract):
    """any number of findings, each with any verdict, in one process"""
    prop = "C23"
    name = "distribution verdict"
    functions = ("javatools.distdiff:DistReport.check_impl", "javatools.distdiff:DistReport.check", "javatools.change:SuperChange.check_impl")
    must_cover = ("changed", "unchanged")
    split_inst = False

    def inputs(self, w):
        how = w.choice("how", ("plain", "report", "report of jars", "report of classes"))
        ch = w.seq("finding", lambda w, k: values(w))
        return (ch, Any("changed", lambda j: ch[j]["changed"]), how)

    def forms(self, inp):
        return {"c": lambda i, init: inp[1].at(i)}

    def run(self, L, inp):
        ch, _, how = inp
        marks = Log()
        D = L.distdiff
        base = D.DistChange if how == "plain" else D.DistReport
        Child = child_class(L, {"report of jars": D.DistJarReport, "report of classes": D.DistClassReport}.get(how))

        class Whole(base):
            def collect_impl(self):
                return table(len(ch), lambda k: Child(k, marks, ch[k]))
        ran = []

        class Rpt(Reporter):
            def run(self, change):
                ran.append((change is c, bool(change.is_change())))
        opts = Options(1)
        opts.processes = 0
        c = Whole("left", "right") if how == "plain" else Whole("left", "right", Rpt(opts))
        c.check()
        kept = c.collect()
        return (bool(c.is_change()), bool(marks.checked.all(len(ch))), ran,
                table(len(kept), lambda k: (bool(kept[k].is_change()), bool(kept[k].is_ignored(opts)))))

    def spec(self, inp):
        ch, some, how = inp
        r = some.holds(len(ch))
        cover("changed" if r else "unchanged")
        return (bool(r), True, [] if how == "plain" else [(True, bool(r))], table(len(ch), lambda k: (ch[k]["changed"], ch[k]["ignored1"])))


# ---------------------------------------------------------------- content of a file

COMPARED = (("DistClassChange", "JavaClassChange"), ("DistClassReport", "JavaClassReport"), ("DistManifestChange", "ManifestChange"),
            ("DistJarChange", "JarChange"), ("DistJarReport", "JarReport"))


@contract
class Contents(Contract):
    """a file of any path; decoding it by its contract"""
    prop = "C23"
    name = "file contents"
    functions = tuple("javatools.distdiff:%s.collect_impl" % k for k, c in COMPARED) + (
        "javatools.distdiff:DistContentChange.left_fn", "javatools.distdiff:DistContentChange.right_fn")
    concrete = False
    must_cover = ("compared", "not compared")

    def inputs(self, w):
        return (w.choice("kind", COMPARED), w.bool("changed"), w.str("entry", lo=1))

    def callee(self, L, inp):
        def parse_file(me, fn):
            me.parsed = fn
        return {"javatools:unpack_classfile": lambda fn: ("class", fn), "javatools.manifest:Manifest.parse_file": parse_file,
                "posixpath:join": lambda *a: ("path",) + a}

    def run(self, L, inp):
        (kind, _), changed, entry = inp
        make = getattr(L.distdiff, kind)
        if kind[-6:] == "Report":
            c = make("left", "right", entry, "the reporter")
            c.changed = changed
        else:
            c = make("left", "right", entry, changed)
        out = tuple(c.collect())

        def side(d):
            return ("manifest", d.parsed) if hasattr(d, "parsed") else d
        return tuple([(type(x).__name__, side(x.ldata), side(x.rdata), getattr(x, "reporter", None)) for x in out])

    def spec(self, inp):
        (kind, child), changed, entry = inp
        if not changed:
            cover("not compared")
            return ()
        cover("compared")
        left, right = ("path", "left", entry), ("path", "right", entry)
        rpt = "the reporter" if kind[-6:] == "Report" else None
        if child[:9] == "JavaClass":
            left, right = ("class", left), ("class", right)
        elif child == "ManifestChange":
            left, right = ("manifest", left), ("manifest", right)
        return ((child, left, right, rpt),)


@contract
class Plain(Contract):
    """a file with no deeper meaning: any verdict of the tree comparison"""
    prop = "C23"
    name = "file verdict"
    functions = ("javatools.distdiff:DistContentChange.check_impl", "javatools.distdiff:DistContentChange.is_ignored", "javatools.change:GenericChange.check")
    summaries = {"javatools.dirutils:fnmatches": lambda entry, *pats: Plain.matched(entry, pats)}
    must_cover = ("meaning", "none")
    concrete = False

    @staticmethod
    def matched(entry, pats):
        ensure(pats == ("p", "q"), "the patterns of the option")
        return abstract("matched", (entry,), "bool")

    def inputs(self, w):
        ch = w.seq("child", lambda w, k: values(w))
        return (ch, Any("changed", lambda j: ch[j]["changed"]), w.bool("differs"), w.str("entry", lo=1),
                w.choice("kind", ("DistContentChange", "DistJarChange", "DistClassChange", "DistManifestChange")))

    def forms(self, inp):
        return {"c": lambda i, init: inp[1].at(i)}

    def run(self, L, inp):
        ch, _, differs, entry, kind = inp
        log = Log()
        Child = child_class(L)

        class O(Options):
            ignore_filenames = ["p", "q"]

        class Finding(getattr(L.distdiff, kind)):
            def collect_impl(self):
                return table(len(ch), lambda k: Child(k, log, ch[k]))
        c = Finding("left", "right", entry, differs)
        c.check()
        return (bool(c.is_change()), bool(c.is_ignored(O(1))))

    def spec(self, inp):
        ch, some, differs, entry, kind = inp
        n = len(ch)
        if n == 0:
            cover("none")
            changed = differs
        else:
            cover("meaning")
            changed = some.holds(n)
        ignored = changed and n > 0 and not exists(n, lambda k: ch[k]["changed"] and not ch[k]["ignored1"])
        return (bool(changed), bool(abstract("matched", (entry,), "bool") or ignored))


# ---------------------------------------------------------------- text files

class Line:
    def __init__(self, text):
        self.text = text

    def rstrip(self):
        return self.text


class Text:
    """the content of a text file: its lines, known by what is left without trailing whitespace"""
    def __init__(self, whole, lines):
        self.whole, self.lines = whole, lines

    def splitlines(self):
        return table(len(self.lines), lambda k: Line(self.lines[k]), list)

    def decode(self, *a):
        return self.whole

    def __eq__(self, other):
        return self.whole == other.whole

    def __ne__(self, other):
        return self.whole != other.whole


class File:
    def __init__(self, text):
        self.text = text

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        pass

    def read(self):
        return self.text

    def __iter__(self):
        return iter(self.text.splitlines())


@contract
class TextFile(Contract):
    """texts of any number of lines; equal contents have equal lines"""
    prop = "C23"
    name = "text files"
    functions = ("javatools.distdiff:DistTextChange.check", "javatools.distdiff:DistTextChange.collect_impl", "javatools.distdiff:DistTextChange.is_ignored",
                 "javatools.distdiff:DistTextChange.__init__", "javatools.distdiff:DistContentChange.check_impl")
    concrete = False
    must_cover = ("trailing", "lines", "same")
    split_inst = False

    def inputs(self, w):
        return (w.seq("left", lambda w, k: w.bytes("line")), w.seq("right", lambda w, k: w.bytes("line")), w.str("left whole"), w.str("right whole"),
                w.bool("option"))

    def run(self, L, inp):
        left, right, lw, rw, option = inp
        n, m = len(left), len(right)
        differs = bool(lw != rw)
        if not differs:
            assume(n == m)
            assume_forall(n, lambda k: left[k] == right[k])

        class Finding(L.distdiff.DistTextChange):
            def open_left(self, mode="rb"):
                return File(Text(lw, left))

            def open_right(self, mode="rb"):
                return File(Text(rw, right))

        class O(Options):
            ignore_filenames = []
            ignore_trailing_whitespace = option
        c = Finding("l", "r", "entry", differs)
        c.check()
        return (bool(c.is_change()), bool(c.is_ignored(O(1))) if differs else None)

    def spec(self, inp):
        left, right, lw, rw, option = inp
        if lw == rw:
            cover("same")
            return (False, None)
        n, m = len(left), len(right)

        both = n if n < m else m
        if exists(both, lambda k: left[k] != right[k]) or exists(n, lambda k: k >= m and left[k] != b"") or exists(m, lambda k: k >= n and right[k] != b""):
            cover("lines")
            return (True, False)
        cover("trailing")
        return (True, bool(option))


# ---------------------------------------------------------------- exit status

from specs.c22 import CliOptions, Exit as JarExit, Silent, kind_name


@contract
class Exit(JarExit):
    """whatever the comparison says, whichever options"""
    prop = "C23"
    functions = ("javatools.distdiff:cli_dist_diff",)
    which = (("distdiff", "cli_dist_diff", "DistChange", "DistReport"),)


# ---------------------------------------------------------------- names

@contract
class Names(Contract):
    """the patterns, in real names"""
    prop = "C23"
    name = "names"
    functions = ("javatools.distdiff:DistChange.collect_impl",)
    symbolic = False
    bound = "names made of the listed stems and suffixes"
    cases_quick = 800

    def inputs(self, w):
        return (w.choice("stem", ("a", "", "d/a", "./a", "a.jar", "MANIFEST", "./MANIFEST", "x/MANIFEST", "MANIFEST.MF/x", "a.class")),
                w.choice("suffix", tuple(p[1:] for p in JARS + TEXTS) + (".class", ".MF", "", ".jarx", ".JAR", "txt", ".classes", ".mf")),
                w.choice("event", EVENTS), w.bool("shallow"))

    def run(self, L, inp):
        stem, suffix, event, shallow = inp
        D = L.distdiff
        save = D.compare
        D.compare = lambda l, r: iter([(event, stem + suffix)])
        try:
            return [type(c).__name__ for c in D.DistChange("l", "r", shallow).collect()]
        finally:
            D.compare = save

    def spec(self, inp):
        stem, suffix, event, shallow = inp
        return [kind_of_name(stem + suffix, event, shallow)]


def kind_of_name(n, event, shallow):
    return kind_of(n.endswith(tuple(p[1:] for p in JARS)), n.endswith(".class"), n.endswith(tuple(p[1:] for p in TEXTS)),
                   n.endswith("/MANIFEST.MF"), event, shallow)


# ---------------------------------------------------------------- real trees

OPTION_SETS = ((), ("--ignore-trailing-whitespace",), ("--ignore-filenames=*.bin",), ("--ignore-trailing-whitespace", "--ignore-filenames=*.jar"),
               ("--ignore-manifest",), ("--ignore-filenames=d/*",), ("--ignore-version-up", "--ignore-version-down"),
               ("--ignore-version-up", "--ignore-version-down", "--ignore-platform-up", "--ignore-platform-down"), ("--ignore=trailing-whitespace,manifest",))
SHOW = (("-q",), (), ("-j",), ("--show-ignored",), ("--show-unchanged",), ("--show-ignored", "--show-unchanged"), ("-j", "--show-unchanged"))


class TreeMaker:
    """random distributions: path -> (kind, meaning, bytes)"""
    NAMES = ("d/a.txt", "d/b.xml", "d/a.bin", "d/e/b.bin", "d/A.class", "d/x.jar", "d/x.war", "d/MANIFEST.MF", "d/e/MANIFEST.MF", "a.txt", "b.bin", "MANIFEST.MF",
             "d/c.properties")

    def __init__(self, r):
        from specs.c22 import JarMaker
        self.r, self.jars = r, JarMaker(r)

    def text(self):
        r = self.r
        return b"".join(r.choice((b"", b"a", b"b", b"\xe9", b"a b", b" a")) + r.choice((b"", b"", b" ", b"\t")) + r.choice((b"\n", b"\r\n", b"\r", b"\n"))
                        for _ in range(r.choice((0, 1, 2, 3)))) + r.choice((b"", b"a", b" "))

    def entry(self, name):
        r = self.r
        if name.endswith((".txt", ".xml", ".properties")):
            d = self.text()
            return ("text", d, d)
        if name.endswith(".class"):
            return self.jars.entry("A.class")
        if name.endswith("MANIFEST.MF"):
            return self.jars.entry("META-INF/MANIFEST.MF")
        if name.endswith((".jar", ".war")):
            jar = {n: v for n, v in ((n, self.jars.entry(n)) for n in r.sample(("a.txt", "A.class", "META-INF/MANIFEST.MF"), 2))}
            return self.zipped(jar)
        d = r.choice((b"", b"x", b"y", b"\xff\xfe", b"x\n"))
        return ("other", d, d)

    def zipped(self, jar):
        from specs.c22 import write_jar
        with tempfile.TemporaryDirectory() as d:
            p = os.path.join(d, "x")
            write_jar(self.r, jar, p, False)
            with open(p, "rb") as f:
                return ("jar", {n: v[1] for n, v in jar.items()}, f.read(), jar)

    def again(self, name, v):
        """the same meaning in other bytes, where there is a way"""
        r = self.r
        if v[0] == "jar":
            return self.zipped(v[3])
        if v[0] == "mf":
            from specs.c22 import manifest_bytes
            return v[:2] + (manifest_bytes(v[1], False, r.choice((40, 69, 70, 41))),)
        if v[0] == "text" and r.random() < 0.35:
            d = r.choice((v[2] + b"\nmore", b" " + v[2], b"\n" + v[2], v[2].replace(b"a", b" a", 1), v[2] + b" more"))
            return ("text", d, d)
        if v[0] == "text" and r.random() < 0.5:
            d = v[2].replace(b"\n", r.choice((b" \n", b"\n", b"\r\n"))) if b"\r" not in v[2] else v[2] + r.choice((b" ", b"\n", b" \n\n"))
            return ("text", d, d)
        return v

    def make(self):
        r = self.r
        left = {n: self.entry(n) for n in r.sample(self.NAMES, r.choice((0, 1, 3, 6)))}
        right = dict(left)
        if r.random() < 0.1:
            # alike but for the end, far in
            n = r.choice(("d/a.txt", "d/a.bin", "d/big.bin", "d/big.xml"))
            d = b"z" * r.choice((8191, 16384, 65535, 65536, 70000, 140000))
            k = "other" if n.endswith(".bin") else "text"
            left[n], right[n] = (k, d + b"1", d + b"1"), (k, d + b"2", d + b"2")
            return left, right
        if r.random() < 0.15:
            # text files which differ a little
            n = r.choice(("d/a.txt", "d/b.xml", "d/c.properties"))
            left[n] = self.entry(n)
            right[n] = self.again(n, left[n])
            return (right, left) if r.random() < 0.5 else (left, right)
        if r.random() < 0.5:
            n = r.choice(self.NAMES)
            if n in right and r.random() < 0.2:
                del right[n]
            elif n in right and r.random() < 0.6:
                right[n] = self.again(n, right[n])
            else:
                right[n] = self.entry(n)
        else:
            for n in list(right):
                k = r.random()
                if k < 0.1:
                    del right[n]
                elif k < 0.25:
                    right[n] = self.entry(n)
                elif k < 0.5:
                    right[n] = self.again(n, right[n])
            if r.random() < 0.4:
                n = r.choice(self.NAMES)
                right[n] = self.entry(n)
        return (right, left) if r.random() < 0.4 else (left, right)


def stripped(d):
    lines = [x.rstrip() for x in d.replace(b"\r\n", b"\n").replace(b"\r", b"\n").split(b"\n")]
    while lines and not lines[-1]:
        lines.pop()
    return lines


def write_tree(tree, path):
    os.mkdir(path)
    for n, v in tree.items():
        p = os.path.join(path, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(v[2])
        os.utime(p, (1000000, 1000000))


@contract
class Dists(Contract):
    """real trees through the command line, against what was put in them"""
    prop = "C23"
    name = "trees"
    functions = ("javatools.distdiff:main", "javatools.distdiff:cli", "javatools.distdiff:DistChange", "javatools.distdiff:DistReport.check",
                 "javatools.distdiff:DistReport.mp_check_impl", "javatools.distdiff:create_optparser")
    symbolic = False
    bound = "random trees of up to seven files; the listed option sets; report formats JSON and text, in one process and in two"
    must_cover = ("exit 0 unchanged", "exit 0 ignored", "exit 1", "same meaning", "trailing", "shallow", "report", "processes")
    cases_quick = 300
    cases_thorough = 4000

    def inputs(self, w):
        return (w.int("seed", 0, 2 ** 31),)

    def make(self, inp):
        r = random.Random(inp[0])
        left, right = TreeMaker(r).make()
        return left, right, r.random() < 0.3, r.choice(OPTION_SETS), r.choice(SHOW), r.random() < 0.3, r.random() < 0.1

    def run(self, L, inp):
        D = L.distdiff
        left, right, shallow, opts, show, report, procs = self.make(inp)
        out = io.StringIO()
        with tempfile.TemporaryDirectory() as d:
            lp, rp = os.path.join(d, "l"), os.path.join(d, "r")
            write_tree(left, lp)
            write_tree(right, rp)
            args = list(opts) + list(show) + (["--shallow"] if shallow else []) + ["--processes", "2" if procs else "0"]
            options = D.create_optparser("distdiff").parse_args(args + [lp, rp])
            c = D.DistReport(lp, rp, Silent(options)) if report else D.DistChange(lp, rp, shallow)
            c.check()
            found = sorted((os.path.normpath(x.entry), kind_name(x), bool(x.is_change()), bool(x.is_ignored(options))) for x in c.collect())
            if report:
                args += ["--report=text,json", "--report-dir", os.path.join(d, "out")]
            with contextlib.redirect_stdout(out):
                code = D.main(["distdiff"] + args + [lp, rp])
                itself = D.main(["distdiff"] + args + [lp, lp])
            return found, bool(c.is_change()), code, itself

    def post(self, inp, got):
        import fnmatch
        ensure(got[0] == "ret", "the trees are compared: %r" % (got[1],))
        found, changed, code, itself = got[1]
        left, right, shallow, opts, show, report, procs = self.make(inp)
        opts = " ".join(opts)
        if shallow:
            cover("shallow")
        if report:
            cover("processes" if procs else "report")
        ensure([f[0] for f in found] == sorted(set(left) | set(right)), "one finding per file: %r" % (found,))
        ignored = []
        for n, kind, ch, igot in found:
            event = "left only" if n not in right else "right only" if n not in left else "same" if left[n][2] == right[n][2] else "changed"
            # a manifest is one in its directory, which may be the root
            want = kind_of_name(n if event not in ("same", "changed") or "/" in n else "./" + n, event, shallow)
            ensure(kind == want, "kind of %s: %s for %s" % (n, kind, want))
            wch = event != "same"
            trailing = False
            if event == "changed" and not shallow:
                lm, rm = left[n][1], right[n][1]
                if left[n][0] in ("jar", "class", "mf"):
                    if lm == rm:
                        cover("same meaning")
                        wch = False
                elif left[n][0] == "text":
                    trailing = stripped(lm) == stripped(rm)
            ensure(ch == wch, "verdict of %s: %s" % (n, ch))
            if trailing:
                cover("trailing")
            if wch:
                name = n if event in ("left only", "right only") or "/" in n else "./" + n
                pats = [o.split("=")[1] for o in opts.split() if o.startswith("--ignore-filenames=")]
                ig = any(fnmatch.fnmatch(name, p) for p in pats)
                if trailing and "trailing-whitespace" in opts:
                    ig = True
                if want == "DistManifestChange" and "manifest" in opts:
                    ig = True
                if want == "DistClassChange" and "version" in opts and "platform" in opts and left[n][1][0] == right[n][1][0]:
                    ig = True
                if want == "DistJarChange":
                    ig = ig or self.jar_ignored(left[n][1], right[n][1], opts)
                ensure(ig == igot, "%s ignored: %s" % (n, igot))
                ignored.append(ig)
        ensure(changed == bool(ignored), "verdict of the trees")
        ensure(itself == 0, "a tree is unchanged from itself")
        cover("exit 0 unchanged" if not ignored else "exit 0 ignored" if all(ignored) else "exit 1")
        ensure(code == (0 if all(ignored) else 1), "exit status %r" % (code,))

    def jar_ignored(self, l, r, opts):
        for n in set(l) | set(r):
            if n not in l or n not in r:
                return False
            if l[n] != r[n]:
                if n == "META-INF/MANIFEST.MF" and "manifest" in opts:
                    continue
                if n == "A.class" and "version" in opts and "platform" in opts and l[n][0] == r[n][0]:
                    continue
                return False
        return True
