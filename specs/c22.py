"""C22: a jar comparison reports every differing entry under the right kind"""
import contextlib, io, os, random, tempfile, zipfile
from pv.api import *
from specs.c10 import Log, Options, child_class, values

MODULES = ("javatools", "javatools.pack", "javatools.opcodes", "javatools.change", "javatools.classdiff", "javatools.dirutils", "javatools.ziputils",
           "javatools.manifest", "javatools.jardiff")

EVENTS = {"l": "left only", "r": "right only", "d": "changed", "s": "same"}
SUFFIX = {"left only": "Removed", "right only": "Added", "changed": "Change", "same": "Change"}


def named(name, suffix):
    return name[-len(suffix):] == suffix


def kind_of(name, sigfile, sigblock, is_class, event):
    """the findings an entry of this name may be reported as for this event"""
    if event in ("changed", "same") and name == "META-INF/MANIFEST.MF":
        return ("JarManifestChange",)
    if sigfile:
        return ("JarSignatureFile" + SUFFIX[event],)
    if sigblock:
        return ("JarSignatureBlockFile" + SUFFIX[event],)
    if is_class:
        return ("JarClass" + SUFFIX[event],)
    if event == "changed":
        return ("JarGenericFileChange",)
    if event == "same":
        return ("JarContentChange", "JarGenericFileChange")
    return ("JarContent" + SUFFIX[event],)


KINDS = ("JarManifestChange", "JarSignatureFileRemoved", "JarSignatureFileAdded", "JarSignatureFileChange", "JarSignatureBlockFileRemoved",
         "JarSignatureBlockFileAdded", "JarSignatureBlockFileChange", "JarClassRemoved", "JarClassAdded", "JarClassChange", "JarGenericFileChange",
         "JarContentChange", "JarContentAdded", "JarContentRemoved")


# ---------------------------------------------------------------- classification

@contract
class Classify(Contract):
    """any sequence of events; grouping by type (C11), comparing the archives (C20) and the signature names by their contracts"""
    prop = "C22"
    name = "findings"
    functions = ("javatools.jardiff:JarContentsChange.collect_impl", "javatools.jardiff:JarContentChange.__init__")
    split_inst = False
    concrete = False
    cls = "JarContentsChange"

    def inputs(self, w):
        return (w.seq("event", lambda w, k: (w.choice("kind", tuple(EVENTS.values())), w.str("name", lo=1))),)

    def callee(self, L, inp):
        def fnmatches(entry, *pats):
            ensure(len(pats) == 1 and pats[0] == "*.class", "the pattern of classes")
            return named(entry, ".class")
        return {"javatools.change:iterate_by_type": lambda objs, types: iter(objs),
                "javatools.ziputils:compare_zips": lambda l, r: self.compared(inp, l, r),
                "javatools.manifest:file_matches_sigfile": lambda f: abstract("sigfile", (f,), "bool"),
                "javatools.manifest:file_matches_sigblock": lambda f: abstract("sigblock", (f,), "bool"),
                "javatools.dirutils:fnmatches": fnmatches}

    def compared(self, inp, l, r):
        ensure((l, r) == ("left zip", "right zip"), "the opened archives")
        return iter(inp[0])

    def make(self, L):
        return L.jardiff.JarContentsChange("left", "right")

    def run(self, L, inp):
        c = self.make(L)
        c.lzip, c.rzip = "left zip", "right zip"
        out = c.collect()
        return table(len(out), lambda k: self.describe(L, out[k]))

    def describe(self, L, c):
        return (type(c).__name__, c.ldata, c.rdata, c.entry, bool(c.is_change()))

    def kind(self, name, event):
        return kind_of(name, abstract("sigfile", (name,), "bool"), abstract("sigblock", (name,), "bool"), named(name, ".class"), event)

    def spec(self, inp):
        events = inp[0]
        return table(len(events), lambda k: (self.kind(events[k][1], events[k][0])[0], "left zip", "right zip", events[k][1],
                                             events[k][0] != "same"))


class Reporter:
    def __init__(self, options=None):
        self.options = options

    def subreporter(self, entry, name):
        return ("sub", entry, name)


@contract
class ReportFindings(Contract):
    """the findings of JarContentsChange (contract above), those of changed classes replaced by their reports"""
    prop = "C22"
    name = "findings of a report"
    functions = ("javatools.jardiff:JarContentsReport.collect_impl", "javatools.jardiff:JarClassReport.__init__")
    split_inst = False
    concrete = False
    TYPES = ("JarClassChange", "JarClassAdded", "JarClassRemoved", "JarManifestChange", "JarGenericFileChange")

    def inputs(self, w):
        return (w.seq("finding", lambda w, k: (w.choice("type", self.TYPES), w.str("name", lo=1), w.bool("changed"))),)

    def callee(self, L, inp):
        def found(me):
            ensure((me.lzip, me.rzip) == ("left zip", "right zip"), "the opened archives")
            return iter(table(len(inp[0]), lambda k: getattr(L.jardiff, inp[0][k][0])(me.lzip, me.rzip, inp[0][k][1], inp[0][k][2])))
        return {"javatools.jardiff:JarContentsChange.collect_impl": found, "javatools.change:iterate_by_type": lambda objs, types: iter(objs)}

    def run(self, L, inp):
        c = L.jardiff.JarContentsReport("left", "right", Reporter())
        c.lzip, c.rzip = "left zip", "right zip"
        out = c.collect()
        return table(len(out), lambda k: self.describe(L, out[k]))

    def describe(self, L, c):
        return (type(c).__name__, c.ldata, c.rdata, c.entry, bool(c.is_change()), c.reporter if type(c) is L.jardiff.JarClassReport else None)

    def spec(self, inp):
        def one(k):
            t, name, changed = inp[0][k]
            if t == "JarClassChange" and changed:
                return ("JarClassReport", "left zip", "right zip", name, True, ("sub", name, "JavaClassReport"))
            return (t, "left zip", "right zip", name, bool(changed or t != "JarClassChange" and t[:8] == "JarClass"), None)
        return table(len(inp[0]), one)


# ---------------------------------------------------------------- verdicts

class Opened:
    def __init__(self, name, log):
        self.name, self.log = name, log

    def __enter__(self):
        self.log.append(("open", self.name))
        return self.name + " zip"

    def __exit__(self, *exc):
        self.log.append(("close", self.name))


@contract
class Verdict(Contract):
    """any number of findings, each with any verdict"""
    prop = "C22"
    name = "contents verdict"
    functions = ("javatools.jardiff:JarContentsChange.check_impl", "javatools.jardiff:JarContentsReport.check_impl")
    must_cover = ("changed", "unchanged")
    split_inst = False

    def inputs(self, w):
        how = w.choice("how", ("plain", "report", "report of classes"))
        ch = w.seq("finding", lambda w, k: values(w))
        return (ch, Any("changed", lambda j: ch[j]["changed"]), how)

    def forms(self, inp):
        return {"c": lambda i, init: inp[1].at(i)}

    def run(self, L, inp):
        ch, _, how = inp
        log = []
        marks = Log()
        save = L.jardiff.open_zip
        J = L.jardiff
        base = J.JarContentsChange if how == "plain" else J.JarContentsReport
        Child = child_class(L, J.JarClassReport if how == "report of classes" else None)

        class Contents(base):
            def collect_impl(self):
                log.append(("collect", self.lzip, self.rzip))
                return table(len(ch), lambda k: Child(k, marks, ch[k]))
        J.open_zip = lambda f: Opened(f, log)
        try:
            c = Contents("left", "right") if how == "plain" else Contents("left", "right", Reporter(Options(1)))
            c.check()
        finally:
            J.open_zip = save
        kept = c.changes
        return (bool(c.is_change()), sorted(log), log[2], c.lzip, c.rzip, bool(marks.checked.all(len(ch))),
                table(len(kept), lambda k: (bool(kept[k].is_change()), bool(kept[k].is_ignored(Options(1))))))

    def spec(self, inp):
        ch, some, how = inp
        r = some.holds(len(ch))
        cover("changed" if r else "unchanged")
        return (bool(r), [("close", "left"), ("close", "right"), ("collect", "left zip", "right zip"), ("open", "left"), ("open", "right")],
                ("collect", "left zip", "right zip"), None, None, True, table(len(ch), lambda k: (ch[k]["changed"], ch[k]["ignored1"])))


# ---------------------------------------------------------------- content of an entry

class Stream:
    def __init__(self, data):
        self.data = data

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        pass

    def close(self):
        pass

    def read(self, n=-1):
        ensure(n is None or n < 0, "the whole entry is read")
        return self.data


class EntryZip:
    def __init__(self, side, entry, data):
        self.side, self.entry, self.data = side, entry, data

    def open(self, name, mode="r"):
        ensure(name == self.entry and mode == "r", "the entry")
        return Stream(self.data)

    def read(self, name):
        return self.open(name).read()


COMPARED = (("JarClassChange", "JavaClassChange"), ("JarClassReport", "JavaClassReport"), ("JarManifestChange", "ManifestChange"),
            ("JarSignatureFileChange", "SignatureManifestChange"), ("JarSignatureBlockFileChange", "SignatureBlockFileChange"),
            ("JarGenericFileChange", "GenericFileChange"), ("JarContentChange", None), ("JarContentAdded", None), ("JarContentRemoved", None),
            ("JarClassAdded", None), ("JarClassRemoved", None))


@contract
class Contents(Contract):
    """an entry of any content; decoding it by its contract"""
    prop = "C22"
    name = "entry contents"
    functions = tuple("javatools.jardiff:%s.collect_impl" % k for k, c in COMPARED if c) + (
        "javatools.jardiff:JarContentChange.open_left", "javatools.jardiff:JarContentChange.open_right", "javatools.jardiff:JarContentChange.collect_impl",
        "javatools.ziputils:open_zip_entry")
    concrete = False
    must_cover = ("compared", "not compared")

    def inputs(self, w):
        return (w.choice("kind", COMPARED), w.bool("changed"), w.str("entry", lo=1), w.str("left"), w.str("right"))

    def callee(self, L, inp):
        def parse(me, data):
            me.parsed = data
        return {"javatools:unpack_class": lambda data: ("class", data), "javatools.manifest:Manifest.parse": parse}

    def run(self, L, inp):
        (kind, _), changed, entry, left, right = inp
        make = getattr(L.jardiff, kind)
        if kind == "JarClassReport":
            c = make(EntryZip("left", entry, left), EntryZip("right", entry, right), entry, "the reporter")
            c.changed = changed
        else:
            c = make(EntryZip("left", entry, left), EntryZip("right", entry, right), entry, changed)
        out = tuple(c.collect())
        ensure(c.collect() == out, "the children stay the same")

        def side(d):
            if hasattr(d, "parsed"):
                return ("manifest", d.parsed)
            return d
        return tuple([(type(x).__name__, side(x.ldata), side(x.rdata), getattr(x, "reporter", None)) for x in out])

    def spec(self, inp):
        (kind, child), changed, entry, left, right = inp
        if child is None or not changed:
            cover("not compared")
            return ()
        cover("compared")
        if kind[:8] == "JarClass":
            return ((child, ("class", left), ("class", right), "the reporter" if kind == "JarClassReport" else None),)
        if "Manifest" in child:
            return ((child, ("manifest", left), ("manifest", right), None),)
        return ((child, left, right, None),)


# ---------------------------------------------------------------- ignored entries

@contract
class Ignored(Contract):
    """a finding is ignored by its name, by being about a signature, or by all changes within"""
    prop = "C22"
    name = "ignored findings"
    functions = ("javatools.jardiff:JarContentChange.is_ignored",) + tuple("javatools.jardiff:%s.is_ignored" % k for k in KINDS if "Signature" in k)
    summaries = {"javatools.dirutils:fnmatches": lambda entry, *pats: Ignored.matched(entry, pats)}
    must_cover = ("by name", "by signature", "by children", "reported")
    concrete = False

    @staticmethod
    def matched(entry, pats):
        ensure(pats == ("p", "q"), "the patterns of the option")
        return abstract("matched", (entry,), "bool")

    def inputs(self, w):
        ch = w.seq("child", lambda w, k: values(w))
        return (w.choice("kind", KINDS), w.str("entry", lo=1), w.bool("changed"), w.bool("signature"), w.choice("patterns", (True, False)), ch)

    def run(self, L, inp):
        kind, entry, changed, signature, patterns, ch = inp

        class O(Options):
            ignore_jar_signature = signature
            ignore_jar_entry = ["p", "q"]
        opts = O(1)
        log = Log()
        Child = child_class(L)

        class Finding(getattr(L.jardiff, kind)):
            def collect_impl(self):
                return table(len(ch), lambda k: Child(k, log, ch[k]))
        c = Finding("left", "right", entry, changed)
        if not patterns:
            assume(not abstract("matched", (entry,), "bool"))
        return bool(c.is_ignored(opts))

    def spec(self, inp):
        kind, entry, changed, signature, patterns, ch = inp
        if patterns and abstract("matched", (entry,), "bool"):
            cover("by name")
            return True
        if "Signature" in kind and signature:
            cover("by signature")
            return True
        changed = changed or kind[-5:] == "Added" or kind[-7:] == "Removed"
        if changed and len(ch) > 0 and not exists(len(ch), lambda k: ch[k]["before"] and not ch[k]["ignored1"]):
            cover("by children")
            return True
        cover("reported")
        return False


# ---------------------------------------------------------------- exit status

class CliOptions:
    def __init__(self, silent, json, reports):
        self.silent, self.json, self.reports, self.report_dir = silent, json, reports, "dir"
        self.shallow = "shallow"
        self.tag = 1


@contract
class Exit(Contract):
    """whatever the comparison says, whichever options"""
    prop = "C22"
    name = "exit status"
    functions = ("javatools.jardiff:cli_jars_diff", "javatools.classdiff:cli_classes_diff")
    must_cover = ("unchanged", "ignored", "changed")
    which = (("jardiff", "cli_jars_diff", "JarChange", "JarReport"), ("classdiff", "cli_classes_diff", "JavaClassChange", "JavaClassReport"))

    def inputs(self, w):
        return (w.choice("command", self.which), w.bool("changed"), w.bool("ignored"), w.bool("silent"), w.bool("json"),
                w.choice("reports", ((), ("json",), ("json", "text"))))

    def run(self, L, inp):
        (mod, fn, plain, report), changed, ignored, silent, json, reports = inp
        M = getattr(L, mod)
        log = []

        class Delta:
            report_name = "Report"

            def __init__(self, left, right, rpt=None):
                ensure((left, right) == ("left", "right"), "the two sides")
                if rpt == "shallow" and mod == "distdiff":
                    rpt = None
                ensure((rpt is not None) == bool(reports), "reports only where asked for")
                self.checked = False

            def check(self):
                self.checked = True
                log.append("check")

            def is_change(self):
                ensure(self.checked, "the comparison was made")
                return changed

            def is_ignored(self, options):
                ensure(options is opts and self.checked, "under the options given")
                return ignored

            def collect(self, force=False):
                return ()

        class Rpt:
            def __init__(self, rdir, name, options):
                ensure(rdir == "dir" and options is opts, "the report directory")

            def add_formats_by_name(self, names):
                ensure(tuple(names) == reports, "the formats asked for")
                log.append("formats")

        def quick_report(fmt, delta, options):
            log.append(fmt.__name__)
        opts = CliOptions(silent, json, reports)
        R = L.report
        saved = []
        for where, name, value in ((M, plain, Delta), (M, report, Delta), (R, "Reporter", Rpt), (R, "quick_report", quick_report),
                                   (M, "Reporter", Rpt), (M, "quick_report", quick_report)):
            if hasattr(where, name):
                saved.append((where, name, getattr(where, name)))
                setattr(where, name, value)
        try:
            return (getattr(M, fn)(opts, "left", "right"), log)
        finally:
            for where, name, value in reversed(saved):
                setattr(where, name, value)

    def spec(self, inp):
        _, changed, ignored, silent, json, reports = inp
        log = (["formats"] if reports else []) + ["check"] + ([] if silent else ["JSONReportFormat" if json else "TextReportFormat"])
        if not changed:
            cover("unchanged")
            return (0, log)
        if ignored:
            cover("ignored")
            return (0, log)
        cover("changed")
        return (1, log)


# ---------------------------------------------------------------- names of signature entries

@contract
class Names(Contract):
    prop = "C22"
    name = "signature names"
    functions = ("javatools.manifest:file_matches_sigfile", "javatools.manifest:file_matches_sigblock")
    symbolic = False
    bound = "names made of the listed directories, stems and suffixes"
    cases_quick = 1500
    must_cover = ("file", "block", "none")

    def inputs(self, w):
        return (w.choice("dir", ("META-INF/", "", "meta-inf/", "META-INF/x/", "x/META-INF/", "META-INF", "/META-INF/")),
                w.choice("stem", ("KEY", "key", "SIG-", "sig-x", "aSIG-", "x.y", "", "MANIFEST")),
                w.choice("suffix", ("", ".SF", ".sf", ".Sf", ".RSA", ".rsa", ".DSA", ".EC", ".ec", ".SFX", "SF", ".MF", ".rsa.txt", ".ECX", ".SF/")))

    def run(self, L, inp):
        name = "".join(inp)
        return (bool(L.manifest.file_matches_sigfile(name)), bool(L.manifest.file_matches_sigblock(name)))

    def spec(self, inp):
        return signature_name("".join(inp))


def signature_name(name):
    parts = name.split("/")
    if len(parts) != 2 or parts[0] != "META-INF":
        cover("none")
        return (False, False)
    up = parts[1].upper()
    sf = up.endswith(".SF")
    block = up.startswith("SIG-") or up.endswith((".RSA", ".DSA", ".EC"))
    cover("file" if sf else "block" if block else "none")
    return (sf, block)


# ---------------------------------------------------------------- real jars

def manifest_bytes(attrs, order, width):
    """a manifest (or signature file): the same attributes in any order and line width"""
    out = b"Manifest-Version: 1.0\r\n" if width % 2 else b"Manifest-Version: 1.0\n"
    nl = out[-2:] if width % 2 else b"\n"
    for k in sorted(attrs, reverse=order):
        line = ("%s: %s" % (k, attrs[k])).encode()
        while len(line) > width:
            out += line[:width] + nl
            line = b" " + line[width:]
        out += line + nl
    return out + nl


class JarMaker:
    """random jar contents: entry name -> (kind, meaning, bytes); what differs in meaning is another content"""
    NAMES = ("META-INF/MANIFEST.MF", "META-INF/K.SF", "META-INF/k.sf", "META-INF/K.RSA", "META-INF/SIG-X", "META-INF/x/K.SF", "A.class", "p/B.class",
             "p/C.class", ".class", "x.classes", "a.txt", "p/b.bin", "META-INF/INDEX.LIST", "K.SF", "d/", "META-INF/")

    def __init__(self, r):
        self.r = r

    def entry(self, name):
        r = self.r
        if name[-1:] == "/":
            return ("dir", None, b"")
        sf, block = signature_name(name)
        if name == "META-INF/MANIFEST.MF" or sf:
            attrs = {k: r.choice("12") * r.choice((1, 80)) for k in r.sample(("A", "Build-Id", "X"), r.randrange(3))}
            return ("sf" if sf else "mf", attrs, manifest_bytes(attrs, False, r.choice((40, 69, 70, 41))))
        if block:
            d = r.choice((b"", b"b", b"\xff"))
            return ("sb", d, d)
        if name.endswith(".class"):
            from specs.javaclass import ClassWriter
            n, v = r.choice(("p/X", "p/Y")), r.choice((50, 52))
            return ("class", (n, v), ClassWriter(n, version=(0, v)).bytes())
        d = r.choice((b"", b"x", b"y", b"\xff\xfe", b"x\n", b"z" * 40000, b"z" * 39999 + b"y"))
        return ("other", d, d)

    def jar(self):
        r = self.r
        return {n: self.entry(n) for n in r.sample(self.NAMES, r.choice((0, 1, 2, 4, 7)))}

    def other(self, jar):
        r = self.r
        out = {}
        if r.random() < 0.06:
            # alike but for the end, far in
            out = dict(jar)
            n = r.choice(("a.txt", "p/b.bin", "META-INF/INDEX.LIST", "META-INF/K.RSA"))
            d = b"z" * r.choice((8191, 16384, 65536, 70000, 140000))
            k = "sb" if n.endswith(".RSA") else "other"
            jar[n], out[n] = (k, d + b"1", d + b"1"), (k, d + b"2", d + b"2")
            return out
        if r.random() < 0.5:
            # a single difference
            out = dict(jar)
            n = r.choice([n for n in self.NAMES if n[-1:] != "/"])
            if n not in out:
                out[n] = self.entry(n)
            elif r.random() < 0.2:
                del out[n]
            else:
                for _ in range(10):
                    if out[n][1] == jar[n][1]:
                        out[n] = self.entry(n)
            return out
        p = r.choice((0, 0.1, 0.4))
        for n, v in jar.items():
            if r.random() < p / 2:
                continue
            if r.random() >= p:
                if v[0] in ("mf", "sf"):
                    v = v[:2] + (manifest_bytes(v[1], False, r.choice((40, 69, 70, 41))),)
                out[n] = v
            else:
                out[n] = self.entry(n)
        if r.random() < p * 2:
            out.setdefault(*(lambda n: (n, self.entry(n)))(r.choice(self.NAMES)))
        return out


def write_jar(r, jar, path, exploded):
    if exploded:
        os.mkdir(path)
        for n, (_, _, data) in jar.items():
            p = os.path.join(path, n)
            if n[-1:] == "/":
                os.makedirs(p, exist_ok=True)
                continue
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(data)
        return
    with zipfile.ZipFile(path, "w") as z:
        names = list(jar)
        r.shuffle(names)
        for n in names:
            z.writestr(n, jar[n][2], r.choice((zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED)))


OPTION_SETS = ((), ("--ignore-jar-signature",), ("--ignore-manifest",), ("--ignore-jar-entry=*.txt",), ("--ignore-jar-entry=p/*", "--ignore-jar-entry=K.SF"),
               ("--ignore=jar-signature,manifest",), ("--ignore-jar-signature", "--ignore-jar-entry=*.class", "--ignore-manifest"),
               ("--ignore-version-up", "--ignore-version-down"), ("--ignore-version-up", "--ignore-version-down", "--ignore-platform-up", "--ignore-platform-down"))
SHOW = (("-q",), (), ("-j",), ("--show-ignored",), ("--show-unchanged",), ("--show-ignored", "--show-unchanged"), ("-j", "--show-unchanged"))


class Silent:
    """a reporter that writes nothing"""
    def __init__(self, options):
        self.options = options

    def subreporter(self, entry, name):
        return self

    def setup(self):
        pass

    def run(self, change):
        pass

    def clear(self):
        pass


def kind_name(c):
    t = getattr(c, "origclass", None) or type(c)
    return {"DistJarReport": "DistJarChange", "DistClassReport": "DistClassChange", "JarClassReport": "JarClassChange"}.get(t.__name__, t.__name__)


@contract
class Jars(Contract):
    """real jars, zipped or exploded, through the command line, against what was put in them"""
    prop = "C22"
    name = "jars"
    functions = ("javatools.jardiff:main", "javatools.jardiff:cli", "javatools.jardiff:JarChange", "javatools.jardiff:JarReport.check",
                 "javatools.jardiff:JarReport.collect_impl", "javatools.jardiff:JarTypeChange.fn_data", "javatools.jardiff:create_optparser")
    symbolic = False
    bound = "random jars of up to eight entries; the listed option sets; report formats JSON and text"
    must_cover = ("exit 0 unchanged", "exit 0 ignored", "exit 1", "same meaning", "empty", "type", "itself", "report")
    cases_quick = 350
    cases_thorough = 5000

    def inputs(self, w):
        return (w.int("seed", 0, 2 ** 31),)

    def make(self, inp):
        r = random.Random(inp[0])
        m = JarMaker(r)
        left = m.jar()
        right = m.other(left)
        if r.random() < 0.2:
            left = right = m.jar()
        swap = r.random() < 0.3
        if swap:
            left, right = right, left
        return r, left, right, r.random() < 0.15, r.random() < 0.15, r.choice(OPTION_SETS), r.choice(SHOW), r.random() < 0.25

    def run(self, L, inp):
        J = L.jardiff
        r, left, right, lx, rx, opts, show, report = self.make(inp)
        out = io.StringIO()
        with tempfile.TemporaryDirectory() as d:
            lp, rp = os.path.join(d, "l.jar"), os.path.join(d, "r.jar")
            write_jar(r, left, lp, lx)
            write_jar(r, right, rp, rx)
            args = list(opts) + list(show)
            options = J.create_optparser("jardiff").parse_args(args + [lp, rp])
            c = J.JarReport(lp, rp, Silent(options)) if report else J.JarChange(lp, rp)
            c.check()
            found = sorted((kind_name(x), x.entry, bool(x.is_change()), bool(x.is_ignored(options)))
                           for s in c.collect() if isinstance(s, J.JarContentsChange) for x in s.changes)
            if report:
                args += ["--report=text,json", "--report-dir", os.path.join(d, "out")]
            with contextlib.redirect_stdout(out):
                code = J.main(["jardiff"] + args + [lp, rp])
                itself = J.main(["jardiff"] + args + [lp, lp])
            return found, bool(c.is_change()), code, itself

    def expected(self, left, right, lx, rx, opts):
        found, ignored = [], []
        for n in sorted(set(left) | set(right)):
            if n[-1:] == "/" and (n in left and n in right or lx or rx):
                # directories stand in an exploded jar by what they contain
                continue
            if n not in right:
                event = "left only"
            elif n not in left:
                event = "right only"
            else:
                event = "same" if left[n][2] == right[n][2] else "changed"
            kinds = kind_of(n, *signature_name(n), n.endswith(".class"), event)
            changed = event != "same"
            if event == "changed" and left[n][1] == right[n][1]:
                changed = False
                cover("same meaning")
            found.append((kinds, n, changed))
            if changed:
                ignored.append(self.is_ignored(n, kinds[0], event, left, right, opts))
        return found, ignored

    def is_ignored(self, n, kind, event, left, right, opts):
        import fnmatch
        opts = " ".join(opts)
        if "Signature" in kind and "jar-signature" in opts:
            return True
        if kind == "JarManifestChange" and "manifest" in opts:
            return True
        if kind == "JarClassChange" and "version" in opts and "platform" in opts and left[n][1][0] == right[n][1][0]:
            # these versions are those of different platforms
            return True
        return any(fnmatch.fnmatch(n, o.split("=")[1]) for o in opts.split() if o.startswith("--ignore-jar-entry="))

    def post(self, inp, got):
        ensure(got[0] == "ret", "the jars are compared: %r" % (got[1],))
        found, changed, code, itself = got[1]
        r, left, right, lx, rx, opts, show, report = self.make(inp)
        want, ignored = self.expected(left, right, lx, rx, opts)
        folders = []
        if lx or rx:
            # the directories of an exploded jar may be entries or not
            folders = [x for x in found if x[1][-1:] == "/" and x[2]]
            found = [x for x in found if x[1][-1:] != "/"]
        by = sorted((f[1], f[0], f[2], f[3]) for f in found)
        ensure([f[0] for f in by] == [f[1] for f in want], "one finding per entry: %r for %r" % (by, want))
        want_ignored = list(ignored)
        for (n, kind, ch, ig), (kinds, _, wch) in zip(by, want):
            ensure(kind in kinds, "kind of %s: %s for %s" % (n, kind, kinds))
            ensure(ch == wch, "verdict of %s: %s" % (n, ch))
            if ch:
                ensure(ig == want_ignored.pop(0), "%s ignored: %s" % (n, ig))
        if lx != rx:
            cover("type")
            ignored.append(False)
        ignored += [x[3] for x in folders]
        if not want:
            cover("empty")
        if report:
            cover("report")
        if left is right:
            cover("itself")
        ensure(changed == bool(ignored), "verdict of the jars")
        ensure(itself == 0, "a jar is unchanged from itself")
        cover("exit 0 unchanged" if not ignored else "exit 0 ignored" if all(ignored) else "exit 1")
        ensure(code == (0 if all(ignored) else 1), "exit status %r" % (code,))
