"""C14: each ignore option suppresses its own differences and no others"""
import importlib, inspect, os, tempfile
from pv.api import *

MODULES = ("javatools", "javatools.pack", "javatools.opcodes", "javatools.change", "javatools.dirutils", "javatools.manifest",
           "javatools.classdiff", "javatools.jardiff", "javatools.distdiff")

FLAGS = ("ignore_version_up", "ignore_version_down", "ignore_platform_up", "ignore_platform_down", "ignore_absolute_lines",
         "ignore_relative_lines", "ignore_deprecated", "ignore_pool", "ignore_jar_signature", "ignore_manifest",
         "ignore_manifest_subsections", "ignore_trailing_whitespace")

# what the other flags are: set or not, they must not matter
LEAVES = {
    "ClassDeprecationChange": "ignore_deprecated", "MethodDeprecationChange": "ignore_deprecated",
    "FieldDeprecationChange": "ignore_deprecated", "CodeAbsoluteLinesChange": "ignore_absolute_lines",
    "CodeRelativeLinesChange": "ignore_relative_lines", "ClassConstantPoolChange": "ignore_pool",
    "ManifestSectionAdded": "ignore_manifest_subsections", "ManifestSectionRemoved": "ignore_manifest_subsections",
    "ManifestChange": "ignore_manifest", "SignatureManifestChange": "ignore_jar_signature",
    "JarSignatureFileChange": "ignore_jar_signature", "JarSignatureFileAdded": "ignore_jar_signature",
    "JarSignatureFileRemoved": "ignore_jar_signature", "JarSignatureBlockFileChange": "ignore_jar_signature",
    "JarSignatureBlockFileAdded": "ignore_jar_signature", "JarSignatureBlockFileRemoved": "ignore_jar_signature",
}
# verdicts that look at the content of manifest sections: see Section
OTHER = ("ManifestSectionChange", "ManifestMainChange")


class Options:
    pass


class Reporter:
    def __init__(self):
        self.options = Options()
        self.options.processes = 0
        self.options.shallow = False

    def subreporter(self, *a):
        return self

    def run(self, change):
        pass


class Info:
    """either side of a comparison"""
    fields = methods = ()

    def __init__(self, version):
        self.version = version

    def get_code(self):
        return None


def lists(opt):
    """the options that are lists, each empty or holding its own pattern"""
    opt.ignore_jar_entry = ["jar"]
    opt.ignore_filenames = ["dist"]
    opt.ignore_manifest_key = []
    for n in ("ignore", "ignore_lines", "ignore_version", "ignore_platform", "output", "report_dir"):
        setattr(opt, n, None)
    for n in ("ignore_added", "silent", "json", "show_ignored", "show_unchanged", "shallow"):
        setattr(opt, n, False)
    opt.reports = []
    opt.processes = 0


def classes(mod):
    m = importlib.import_module("javatools." + mod)
    change = importlib.import_module("javatools.change").Change
    return sorted([n for n, c in vars(m).items() if isinstance(c, type) and issubclass(c, change) and c.__module__ == m.__name__
                   and n not in OTHER])


def arguments(cls, l, r, entry):
    """the two sides, and the entry where there is one"""
    out = []
    for p in list(inspect.signature(cls.__init__).parameters.values())[1:]:
        if p.kind not in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD) or p.default is not p.empty:
            continue
        if len(out) == 2 and "entry" in p.name:
            out.append(entry)
        else:
            out.append((l, r)[len(out)] if len(out) < 2 else Reporter())
    return out


class Verdict(Contract):
    """every kind of change of a module, under any options, either side of any version, with any children"""
    prop = "C14"
    module = None
    cases_quick = 2500

    def kinds(self):
        return classes(self.module)

    def inputs(self, w):
        kind = w.choice("kind", self.kinds())
        flags = {f: w.bool(f) for f in FLAGS}
        versions = tuple([(w.nat(s + ".major", 70), w.nat(s + ".minor", 3)) for s in ("left", "right")])
        child = w.seq("child", lambda w, k: (w.bool("changed"), w.bool("ignored")))
        return (kind, flags, versions, child, w.bool("jar matches"), w.bool("file matches"))

    def callee(self, L, inp):
        def matches(entry, *patterns):
            ensure(entry == "e", "the name of the entry is matched")
            for p in patterns:
                if (inp[4] if p == "jar" else inp[5]):
                    return True
            return False
        return {"javatools.dirutils:fnmatches": matches}

    def run(self, L, inp):
        kind, flags, versions, child, jar, dist = inp
        cls = getattr(getattr(L, self.module), kind)
        C = L.change
        opt = Options()
        lists(opt)
        if not symbolic():
            opt.ignore_jar_entry = ["x", "e"] if jar else ["x", "e?", ""]
            opt.ignore_filenames = ["x*", "[e]"] if dist else ["ee", "E"]
        for f in FLAGS:
            setattr(opt, f, flags[f])

        class Child(C.Change):
            def __init__(self, v):
                self.v = v

            def is_change(self):
                return self.v[0]

            def is_ignored(self, options):
                ensure(options is opt, "the options are passed on")
                return self.v[1]

            def clear(self):
                pass

        n = len(child)
        if issubclass(cls, C.SuperChange):
            class Kind(cls):
                def collect_impl(self):
                    return table(n, lambda k: Child(child[k]))
        else:
            Kind = cls
        left, right = Info(versions[0]), Info(versions[1])
        c = Kind(*arguments(cls, left, right, "e"))
        c.changed = True
        return (bool(c.is_ignored(opt)), issubclass(cls, C.SuperChange))

    def post(self, inp, got):
        ensure(got[0] == "ret", "there is a verdict")
        r, sup = got[1]
        ensure(r == self.want(inp, sup), "ignored exactly when an option names this difference")

    def want(self, inp, sup):
        kind, flags, versions, child, jar, dist = inp
        l, r = versions
        if kind in ("ClassVersionChange", "ClassPlatformChange"):
            what = "version" if kind == "ClassVersionChange" else "platform"
            if l[0] < r[0] or (l[0] == r[0] and l[1] < r[1]):
                cover("up")
                return flags["ignore_%s_up" % what]
            if l[0] > r[0] or l[1] > r[1]:
                cover("down")
                return flags["ignore_%s_down" % what]
            return False
        if kind in LEAVES and flags[LEAVES[kind]]:
            cover("own")
            return True
        if self.named(kind, jar, dist):
            cover("name")
            return True
        if sup and len(child) > 0:
            return not exists(len(child), lambda k: child[k][0] and not child[k][1])
        cover("reported")
        return False

    def named(self, kind, jar, dist):
        return False


@contract
class ClassVerdict(Verdict):
    name = "classdiff is_ignored"
    functions = ("javatools.classdiff:ClassVersionChange.is_ignored", "javatools.classdiff:ClassPlatformChange.is_ignored",
                 "javatools.classdiff:ClassDeprecationChange.is_ignored", "javatools.classdiff:CodeAbsoluteLinesChange.is_ignored",
                 "javatools.classdiff:CodeRelativeLinesChange.is_ignored", "javatools.classdiff:MethodDeprecationChange.is_ignored",
                 "javatools.classdiff:FieldDeprecationChange.is_ignored", "javatools.classdiff:ClassConstantPoolChange.is_ignored",
                 "javatools.change:SuperChange.is_ignored", "javatools.change:Change.is_ignored")
    module = "classdiff"
    must_cover = ("up", "down", "own", "reported")


@contract
class ManifestVerdict(Verdict):
    name = "manifest is_ignored"
    functions = ("javatools.manifest:ManifestChange.is_ignored", "javatools.manifest:SignatureManifestChange.is_ignored",
                 "javatools.manifest:ManifestSectionAdded.is_ignored", "javatools.manifest:ManifestSectionRemoved.is_ignored")
    module = "manifest"
    must_cover = ("own", "reported")
    cases_quick = 600


@contract
class JarVerdict(Verdict):
    name = "jardiff is_ignored"
    functions = ("javatools.jardiff:JarContentChange.is_ignored", "javatools.jardiff:JarSignatureFileChange.is_ignored",
                 "javatools.jardiff:JarSignatureFileAdded.is_ignored", "javatools.jardiff:JarSignatureFileRemoved.is_ignored",
                 "javatools.jardiff:JarSignatureBlockFileChange.is_ignored", "javatools.jardiff:JarSignatureBlockFileAdded.is_ignored",
                 "javatools.jardiff:JarSignatureBlockFileRemoved.is_ignored")
    module = "jardiff"
    must_cover = ("own", "name", "reported")

    def named(self, kind, jar, dist):
        m = importlib.import_module("javatools.jardiff")
        return issubclass(getattr(m, kind), m.JarContentChange) and jar


@contract
class DistVerdict(Verdict):
    """a text file that was not looked into: see TrailingWhitespace"""
    name = "distdiff is_ignored"
    functions = ("javatools.distdiff:DistContentChange.is_ignored", "javatools.distdiff:DistTextChange.is_ignored")
    module = "distdiff"
    must_cover = ("name", "reported")

    def named(self, kind, jar, dist):
        m = importlib.import_module("javatools.distdiff")
        return issubclass(getattr(m, kind), m.DistContentChange) and dist


@contract
class Patterned(Contract):
    """any number of patterns; an empty one matches nothing.  fnmatch itself is Python's."""
    prop = "C14"
    name = "fnmatches"
    functions = ("javatools.dirutils:fnmatches",)
    must_cover = ("match", "none")
    cases_quick = 500

    def inputs(self, w):
        return (w.str("entry", alpha="ab", gen=lambda r: r.choice(("a", "b", "ab", "a.b"))),
                w.seq("pattern", lambda w, k: w.str("p", alpha="ab*?", gen=lambda r: r.choice(("", "a", "b", "a*", "?b", "*b", "c")))))

    def callee(self, L, inp):
        return {"fnmatch:fnmatch": self.matches}

    def matches(self, entry, pattern):
        if symbolic():
            return abstract("matches", [entry, pattern], "bool")
        import fnmatch
        return fnmatch.fnmatch(entry, pattern)

    def run(self, L, inp):
        return bool(L.dirutils.fnmatches(inp[0], *inp[1]))

    def spec(self, inp):
        e, p = inp
        r = exists(len(p), lambda k: p[k] != "" and self.matches(e, p[k]))
        cover("match" if r else "none")
        return r


KEYS = ("Name", "Foo", "Bar")


class Section(Contract):
    """sections with any of three keys with any values, one or two keys ignored"""
    prop = "C14"
    kind = None
    bound = "at most three keys a section (their values are not bounded)"
    cases_quick = 1500
    maxpaths = 12000

    def inputs(self, w):
        kind = self.kind
        sides = []
        for s in ("left", "right"):
            have = [w.choice("%s has %s" % (s, k), (True, False) if w.sym else (True, True, False)) for k in KEYS[1:]]
            val = [w.str("%s %s" % (s, k), alpha="xyz", gen=lambda r: r.choice("xy")) for k in KEYS]
            sides.append((have, val))
        ign = w.choice("ignored", ((), ("foo",), ("Bar", "FOO"), ("name",)) if w.sym else ((), ("Foo",), ("foo",), ("Bar", "Foo"), ("BAR",), ("Name",), ("Fo",), ("Foo", "name", "baR"), ("FOO", "Bar-Foo")))
        sub = w.bool("subsections")
        main = w.bool("manifest")
        swap = w.choice("swap", (False, True))
        return (kind, sides, ign, sub, main, swap)

    def run(self, L, inp):
        kind, sides, ign, sub, main, swap = inp
        secs = []
        for n, (have, val) in enumerate(sides):
            s = L.manifest.ManifestSection(val[0])
            order = [(k, v) for k, v, h in zip(KEYS[1:], val[1:], have) if h]
            if swap and n == 1:
                order = order[::-1]
            for k, v in order:
                s[k] = v
            secs.append(s)
        c = getattr(L.manifest, kind)(secs[0], secs[1])
        c.check()
        opt = Options()
        lists(opt)
        for f in FLAGS:
            setattr(opt, f, True)
        opt.ignore_manifest_subsections = sub
        opt.ignore_manifest = main
        opt.ignore_manifest_key = list(ign)
        return (bool(c.is_change()), bool(c.is_ignored(opt)))

    def post(self, inp, got):
        kind, sides, ign, sub, main, swap = inp
        ensure(got[0] == "ret", "there is a verdict")
        change, r = got[1]
        (lh, lv), (rh, rv) = sides
        lh, rh = [True] + lh, [True] + rh
        low = [x.lower() for x in ign]
        differ = [(lh[j] != rh[j]) or (lh[j] and bool(lv[j] != rv[j])) for j in range(3)]
        both = [j for j in (1, 2) if lh[j] and rh[j]]
        moved = swap and len(both) == 2
        ensure(change == (any(differ) or moved), "changed exactly when something differs")
        if not change:
            return
        if sub and kind == "ManifestSectionChange":
            cover("subsections")
            ensure(r, "subsections are ignored")
            return
        left = [KEYS[j] for j in range(3) if differ[j] and KEYS[j].lower() not in low]
        if moved and not [j for j in both if KEYS[j].lower() in low]:
            left.append("order")
        cover("none" if not ign else "not all" if left else "keys")
        ensure(r == (bool(ign) and not left), "ignored exactly when nothing but ignored keys differs")


@contract
class Subsection(Section):
    name = "ManifestSectionChange.is_ignored"
    functions = ("javatools.manifest:ManifestSectionChange.is_ignored",)
    kind = "ManifestSectionChange"
    must_cover = ("subsections", "keys", "not all", "none")


@contract
class MainSection(Section):
    name = "ManifestMainChange.is_ignored"
    functions = ("javatools.manifest:ManifestMainChange.is_ignored",)
    kind = "ManifestMainChange"
    must_cover = ("keys", "not all", "none")


@contract
class Implied(Contract):
    """--ignore-lines, --ignore-version, --ignore-platform, on any options so far"""
    prop = "C14"
    name = "--ignore-lines, -version, -platform"
    functions = ("javatools.classdiff:_opt_cb_ign_lines.__call__", "javatools.classdiff:_opt_cb_ign_version.__call__",
                 "javatools.classdiff:_opt_cb_ign_platform.__call__")

    def inputs(self, w):
        return (w.choice("option", ("lines", "version", "platform")), {f: w.bool(f) for f in FLAGS})

    def run(self, L, inp):
        what, flags = inp
        opt = Options()
        for f in FLAGS:
            setattr(opt, f, flags[f])
        cls = getattr(L.classdiff, "_opt_cb_ign_" + what)
        cls(["--ignore-" + what], what)(None, opt, [], None)
        return tuple([bool(getattr(opt, f)) for f in FLAGS])

    def spec(self, inp):
        what, flags = inp
        return tuple([True if f in IMPLIED[what] else flags[f] for f in FLAGS])


IMPLIED = {"lines": ("ignore_absolute_lines", "ignore_relative_lines"), "version": ("ignore_version_up", "ignore_version_down"),
           "platform": ("ignore_platform_up", "ignore_platform_down")}
TOOLS = {"classdiff": ("version-up", "version-down", "platform-up", "platform-down", "absolute-lines", "relative-lines", "deprecated",
                       "pool", "lines", "version", "platform")}
TOOLS["jardiff"] = TOOLS["classdiff"] + ("jar-signature", "manifest", "manifest-subsections")
TOOLS["distdiff"] = TOOLS["jardiff"] + ("trailing-whitespace",)


@contract
class CommandLine(Contract):
    """the options as parsed from a command line: individual, combined and comma-separated forms (argparse is Python's)"""
    prop = "C14"
    name = "command line"
    functions = ("javatools.classdiff:_opt_cb_ignore.__call__", "javatools.classdiff:add_classdiff_optgroup",
                 "javatools.classdiff:add_general_optgroup", "javatools.jardiff:add_jardiff_optgroup",
                 "javatools.distdiff:add_distdiff_optgroup")
    symbolic = False
    bound = "randomly drawn command lines of the three tools"
    cases_quick = 1200

    def inputs(self, w):
        tool = w.choice("tool", ("classdiff", "jardiff", "distdiff"))
        words = []
        for j in range(w.len("options", 0, 4)):
            form = w.choice("form%d" % j, ("alone", "ignore", "alone", "list"))
            names = [w.choice("name%d.%d" % (j, i), TOOLS[tool]) for i in range(1 if form == "alone" else w.len("names%d" % j, 0, 3))]
            if form == "list":
                words.append(("list", w.choice("which%d" % j, ("jar-entry", "manifest-key", "filenames")), w.choice("value%d" % j, ("x", "*.y"))))
            elif form == "alone":
                words.append((form, names[0], None))
            else:
                words.append((form, names, w.choice("sep%d" % j, (",", ", ", " ,", ",,"))))
        return (tool, words)

    def usable(self, tool, which):
        return {"classdiff": 0, "jardiff": 2, "distdiff": 3}[tool] > ("jar-entry", "manifest-key", "filenames").index(which)

    def run(self, L, inp):
        tool, words = inp
        argv = []
        for form, a, b in words:
            if form == "alone":
                argv.append("--ignore-" + a)
            elif form == "ignore":
                argv += ["--ignore", b.join(a)]
            elif self.usable(tool, a):
                argv += ["--ignore-" + a, b]
        opt = getattr(L, tool).create_optparser("x").parse_args(argv + ["left", "right"])
        return opt

    def post(self, inp, got):
        tool, words = inp
        ensure(got[0] == "ret", "the command line is accepted")
        opt = got[1]
        want = set()
        listed = {"jar-entry": [], "manifest-key": [], "filenames": []}
        for form, a, b in words:
            if form == "list":
                if self.usable(tool, a):
                    listed[a].append(b)
                continue
            for n in ([a] if form == "alone" else a):
                want |= set(IMPLIED.get(n, ("ignore_" + n.replace("-", "_"),)))
        for n in TOOLS[tool]:
            f = "ignore_" + n.replace("-", "_")
            if n not in IMPLIED:
                ensure(bool(getattr(opt, f)) == (f in want), "%s is set exactly when asked for" % f)
        for n, v in listed.items():
            if self.usable(tool, n):
                ensure(list(getattr(opt, "ignore_" + n.replace("-", "_"))) == v, "values of --ignore-%s" % n)


LINES = ("a", "a ", "b", "", "  ", "a\t", "b c", "b  c", " a")


@contract
class TrailingWhitespace(Contract):
    """text files of a few lines on disk"""
    prop = "C14"
    name = "DistTextChange trailing whitespace"
    functions = ("javatools.distdiff:DistTextChange.check", "javatools.distdiff:DistTextChange.is_ignored",
                 "javatools.distdiff:DistTextChange.collect_impl")
    symbolic = False
    bound = "files of at most four lines"
    cases_quick = 1500

    def inputs(self, w):
        files = []
        for s in ("left", "right"):
            lines = [w.choice("%s.%d" % (s, j), LINES) for j in range(w.len(s, 0, 4))]
            files.append("\n".join(lines) + w.choice(s + ".end", ("\n", "", "\n\n")))
        if w.choice("alike", (False, False, True)):
            files[1] = "\n".join([l.rstrip() + w.choice("tail%d" % k, ("", " ", "")) for k, l in enumerate(files[0].split("\n"))])
        return (tuple(files), w.bool("option"), w.bool("match"))

    def run(self, L, inp):
        files, option, match = inp
        with tempfile.TemporaryDirectory() as d:
            for s, t in zip("lr", files):
                os.mkdir(os.path.join(d, s))
                with open(os.path.join(d, s, "f.txt"), "w") as f:
                    f.write(t)
            c = L.distdiff.DistTextChange(os.path.join(d, "l"), os.path.join(d, "r"), "f.txt")
            c.check()
            opt = Options()
            lists(opt)
            for f in FLAGS:
                setattr(opt, f, False)
            opt.ignore_trailing_whitespace = option
            opt.ignore_filenames = ["*.txt"] if match else []
            return (bool(c.is_change()), bool(c.is_ignored(opt)))

    def post(self, inp, got):
        (l, r), option, match = inp
        ensure(got[0] == "ret", "there is a verdict")
        change, ign = got[1]
        ensure(change == (l != r), "changed exactly when the files differ")
        if change:
            a, b = [x.rstrip() for x in l.split("\n")], [x.rstrip() for x in r.split("\n")]
            while a and not a[-1]:
                a.pop()
            while b and not b[-1]:
                b.pop()
            ensure(ign == (match or (option and a == b)), "ignored exactly when only trailing whitespace differs")


@contract
class IgnoreAdded(Contract):
    """--ignore-added names added fields and methods"""
    prop = "C14"
    name = "--ignore-added"
    functions = ("javatools.classdiff:FieldAdded", "javatools.classdiff:MethodAdded")
    symbolic = False
    bound = "the two kinds, with and without the option"
    cases_quick = 40

    def inputs(self, w):
        return (w.choice("kind", ("FieldAdded", "MethodAdded")), w.bool("option"))

    def run(self, L, inp):
        argv = ["--ignore-added"] if inp[1] else []
        opt = L.classdiff.create_optparser("x").parse_args(argv + ["l", "r"])
        return bool(getattr(L.classdiff, inp[0])(None, Info((1, 1))).is_ignored(opt))

    def spec(self, inp):
        return inp[1]

    def known(self, rec):
        return "C14-ignore-added" if rec.get("option") else None
