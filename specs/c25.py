"""C25: reports show exactly the changes that are not ignored"""
import contextlib, io, json, os, random, tempfile
from pv.api import *
from specs.c10 import Log, Options, child_class, values

MODULES = ("javatools.change", "javatools.dirutils", "javatools.report")

FLAGS = (None, False, True)


def options(inp):
    """an options object; a display option may be absent"""
    o = Options(1)
    if inp["show ignored"] is not None:
        o.show_ignored = inp["show ignored"]
    if inp["show unchanged"] is not None:
        o.show_unchanged = inp["show unchanged"]
    return o


def draw_options(w, few=False):
    return {"show ignored": w.choice("show ignored", FLAGS[::2] if few else FLAGS), "show unchanged": w.choice("show unchanged", FLAGS[1:] if few else FLAGS)}


def shown(v, o):
    """is an item of these verdicts listed"""
    if v["changed"]:
        return bool(o["show ignored"]) or not v["ignored1"]
    return bool(o["show unchanged"])


@contract
class Simplify(Contract):
    """any number of children with any verdicts"""
    prop = "C25"
    name = "children of a simplified change"
    functions = ("javatools.change:SuperChange.simplify", "javatools.change:GenericChange.simplify", "javatools.change:Change.simplify",
                 "javatools.change:SuperChange.is_ignored")
    must_cover = ("listed", "left out")

    def inputs(self, w):
        ch = w.seq("child", lambda w, k: values(w))
        d = draw_options(w, few=w.sym)
        d.update(children=ch, changed=w.bool("parent changed"), description=w.str("description", lo=1), label=w.str("label"),
                 entry=w.choice("entry", (None, "x")), some=Any("some", lambda j: ch[j]["changed"]))
        return d

    def run(self, L, inp):
        log = Log()
        log.checked.has = lambda k: True
        Child = child_class(L)
        ch = inp["children"]

        class Parent(L.change.SuperChange):
            def collect_impl(self):
                return table(len(ch), lambda k: Child(k, log, ch[k]))

        p = Parent(1, 2)
        p.changed, p.description, p.label, p.entry = inp["changed"], inp["description"], inp["label"], inp["entry"]
        d = p.simplify(options(inp))
        subs = d["children"]
        return (tuple(s.k for s in subs), bool(d["is_change"]), bool(d["is_ignored"]), d["description"], d["label"], d["class"],
                d.get("entry"), "is_addition" in d or "is_removal" in d)

    def spec(self, inp):
        ch = inp["children"]

        def one(k):
            if shown(ch[k], inp):
                cover("listed")
                return (k,)
            cover("left out")
            return ()
        n = len(ch)
        ignored = False
        if inp["changed"] and n > 0:
            ignored = not exists(n, lambda k: ch[k]["changed"] and not ch[k]["ignored1"])
        return (tuple(flat(n, one)), inp["changed"], ignored, inp["description"], inp["label"], "Parent", inp["entry"], False)


@contract
class SimplifyLeaf(Contract):
    """changes of every basic kind"""
    prop = "C25"
    name = "a simplified change"
    functions = ("javatools.change:Change.simplify", "javatools.change:GenericChange.simplify", "javatools.change:SquashedChange.simplify",
                 "javatools.change:SquashedChange.__init__", "javatools.change:squash", "javatools.change:Change.get_description")
    KINDS = ("Change", "GenericChange", "Addition", "Removal")

    def inputs(self, w):
        return {"kind": w.choice("kind", self.KINDS), "changed": w.bool("changed"), "ignored": w.bool("ignored"), "label": w.str("label"),
                "description": w.choice("described", (None, "some description")), "entry": w.choice("entry", (None, "x")),
                "squash": w.bool("squash"), "options": w.bool("options")}

    def run(self, L, inp):
        opt = Options(1)
        base = getattr(L.change, inp["kind"])

        class Leaf(base):
            def is_change(self):
                return inp["changed"]

            def is_ignored(self, options):
                ensure(options is opt, "the options of the report")
                return inp["ignored"]

        c = Leaf(None, None)
        c.description, c.label, c.entry = inp["description"], inp["label"], inp["entry"]
        if inp["squash"]:
            c = L.change.squash(c, options=opt)
        d = c.simplify(opt if inp["options"] else None)
        return (bool(d["is_change"]), "is_ignored" in d, bool(d.get("is_ignored")), d["description"], d["label"], d.get("entry"),
                bool(d.get("is_addition")), bool(d.get("is_removal")), d.get("original_class", d["class"]))

    def spec(self, inp):
        desc = inp["description"]
        if desc is None:
            desc = inp["label"] + (" changed" if inp["changed"] else " unchanged")
        return (inp["changed"], inp["options"], inp["options"] and inp["ignored"], desc, inp["label"], inp["entry"], inp["kind"] == "Addition",
                inp["kind"] == "Removal", "Leaf")


# ---------------------------------------------------------------- text

@contract
class Indented(Contract):
    """an item with any verdicts and any number of children, at any depth; the reports of the children by this same contract"""
    prop = "C25"
    name = "an item in a text report"
    functions = ("javatools.report:_indent_change",)
    concrete = False
    must_cover = ("changed", "ignored", "unchanged", "left out")

    def inputs(self, w):
        d = draw_options(w)
        d.update(changed=w.bool("changed"), ignored1=w.bool("ignored"), description=w.str("description", lo=1), children=w.len("children"),
                 depth=w.int("depth", 0))
        return d

    def callee(self, L, inp):
        def line(stream, indent, *msgs):
            ensure(stream is self.stream, "the stream of the report")
            text = ""
            for m in msgs:
                text = text + m
            self.log.append(("line", indent, text))

        def sub(change, out, options, indent):
            ensure(out is self.stream and options is self.options, "the stream and options of the report")
            self.log.append(("item", indent, change))
        return {"javatools.report:_indent": line, "javatools.report:_indent_change": sub}

    def run(self, L, inp):
        self.log = table(0, None, list)
        self.stream = object()
        self.options = opt = options(inp)

        class Item:
            def get_description(self):
                return inp["description"]

            def is_change(self):
                return inp["changed"]

            def is_ignored(self, o):
                ensure(o is opt, "the options of the report")
                return inp["ignored1"]

            def collect(self, force=False):
                return table(inp["children"], lambda k: ("child", k))
        L.report._indent_change(Item(), self.stream, opt, inp["depth"])
        return tuple(self.log)

    def spec(self, inp):
        if not shown(inp, inp):
            cover("left out")
            return ()
        text = inp["description"]
        if inp["changed"] and inp["ignored1"]:
            cover("ignored")
            text = text + " [IGNORED]"
        else:
            cover("changed" if inp["changed"] else "unchanged")
        deeper = inp["depth"] + 1
        return (("line", inp["depth"], text),) + tuple(table(inp["children"], lambda k: ("item", deeper, ("child", k))))


def pieces(text):
    if not symbolic():
        return tuple(text)
    from pv import vals
    return vals.text_atoms(text)


def escaped(text):
    return text.encode("ascii", "backslashreplace").decode("ascii")


@contract
class Line(Contract):
    """any depth and texts"""
    prop = "C25"
    name = "a line of a text report"
    functions = ("javatools.report:_indent",)

    def inputs(self, w):
        return (w.int("depth", 0), w.choice("pieces", (1, 2)), w.str("first"), w.str("second"))

    def run(self, L, inp):
        out = table(0, None, list)

        class Sink:
            def write(self, x):
                for p in pieces(x):
                    out.append(p)
        L.report._indent(Sink(), inp[0], *inp[2:2 + inp[1]])
        return tuple(out) if symbolic() else "".join(out)

    def spec(self, inp):
        texts = inp[2:2 + inp[1]]
        if not symbolic():
            return "  " * inp[0] + escaped("".join(texts)) + "\n"
        out = tuple(flat(inp[0], lambda k: (" ", " ")))
        for t in texts:
            out = out + pieces(escaped(t))
        return out + ("\n",)


# ---------------------------------------------------------------- formats

class Format:
    """a requested report format: what was done with it"""
    log = None
    which = None

    def __init__(self, basedir, options, breadcrumbs=()):
        self.log.append((self.which, "made", basedir, options, tuple(breadcrumbs)))

    def setup(self):
        self.log.append((self.which, "setup"))

    def run(self, change, entry, out=None):
        ensure(out is None, "written to its own place")
        self.log.append((self.which, "run", change, entry))

    def clear(self):
        self.log.append((self.which, "clear"))


@contract
class Formats(Contract):
    """any place and name; every set of formats, requested in every way"""
    prop = "C25"
    name = "formats of a comparison"
    functions = ("javatools.report:Reporter.__init__", "javatools.report:Reporter.add_formats_by_name", "javatools.report:Reporter.add_report_format",
                 "javatools.report:Reporter.subreporter", "javatools.report:Reporter.setup", "javatools.report:Reporter.run",
                 "javatools.report:Reporter.clear", "javatools.report:Reporter.get_relative_breadcrumbs")
    summaries = {"posixpath:join": lambda a, b: abstract("join", (a, b), "str"), "posixpath:relpath": lambda a, b: abstract("relpath", (a, b), "str")}
    concrete = False
    WAYS = ((), ("json",), ("txt", "text"), ("html", "json"), ("text", "json", "htm"), ("json", "json"), ("unknown", "txt"))

    def inputs(self, w):
        return {"base": w.str("base"), "entry": w.str("entry"), "sub": w.choice("levels", (0, 1, 2)), "path1": w.str("path1"), "name1": w.str("name1"),
                "path2": w.str("path2"), "name2": w.str("name2"), "names": w.choice("formats", self.WAYS), "setup": w.choice("set up", (0, 1, 2)),
                "twice": w.bool("twice"), "more": w.choice("more", (None, "parent", "child", "set up"))}

    def run(self, L, inp):
        log = []
        made = {}
        for label, attr in (("json", "JSONReportFormat"), ("text", "TextReportFormat"), ("html", "CheetahReportFormat")):
            cls = type(attr, (Format,), {"log": log, "which": label})
            made[label] = cls
        saved = {}
        for label, attr in (("json", "JSONReportFormat"), ("text", "TextReportFormat"), ("html", "CheetahReportFormat")):
            saved[attr] = getattr(L.report, attr)
            setattr(L.report, attr, made[label])
        try:
            r = L.report.Reporter(inp["base"], inp["entry"], "options")
            r.add_formats_by_name(list(inp["names"]))
            top = r
            if inp["more"] == "set up" and inp["sub"] > 0:
                top.setup()
                del log[:]
            if inp["sub"] > 0:
                r = r.subreporter(inp["path1"], inp["name1"])
            if inp["sub"] > 1:
                r = r.subreporter(inp["path2"], inp["name2"])
            if r is not top:
                # what becomes of one report is of no concern to another
                if inp["more"] == "parent":
                    top.add_formats_by_name(["html"])
                elif inp["more"] == "child":
                    r.add_formats_by_name(["html"])
                    r = top.subreporter(inp["path1"], inp["name1"])
                    if inp["sub"] > 1:
                        r = r.subreporter(inp["path2"], inp["name2"])
            for _ in range(inp["setup"]):
                r.setup()
            r.run("change")
            if inp["twice"]:
                r.run("other change")
        finally:
            for attr, v in saved.items():
                setattr(L.report, attr, v)
        return log

    def post(self, inp, got):
        ensure(got[0] == "ret", "no failure")
        log = got[1]
        wanted = set()
        for n in inp["names"]:
            wanted |= {"json": {"json"}, "txt": {"text"}, "text": {"text"}, "html": {"html"}, "htm": {"html"}}.get(n, set())
        j, rel = (lambda a, b: abstract("join", (a, b), "str")), (lambda a, b: abstract("relpath", (a, b), "str"))
        base, entry, crumbs = inp["base"], inp["entry"], ()
        if inp["sub"] > 0:
            crumbs += ((base, entry),)
            base, entry = j(base, inp["path1"]), inp["name1"]
        if inp["sub"] > 1:
            crumbs += ((base, entry),)
            base, entry = j(base, inp["path2"]), inp["name2"]
        for which in ("json", "text", "html"):
            mine = tuple(x[1:] for x in log if x[0] == which)
            want = ()
            if which in wanted:
                for change in ("change", "other change") if inp["twice"] else ("change",):
                    want += (("made", base, "options", tuple((rel(b, base), e) for b, e in crumbs)), ("setup",), ("run", change, entry), ("clear",))
            ensure_eq(mine, want, "the use of the %s format" % which)


# ---------------------------------------------------------------- real reports

LABELS = ("Fields", "Method", "Größe", "x\u4e2d", "a b")


class Node:
    """a drawn tree of changes and the verdicts it is to have"""
    def __init__(self, r, depth):
        self.kind = r.choice(("Leaf", "Leaf", "Super", "Super", "Added", "Removed") if depth < 3 else ("Leaf", "Added", "Removed"))
        self.label = "%s-%d" % (r.choice(LABELS), r.randrange(10 ** 6))
        self.desc = r.choice((None, "d-%d \u00e9" % r.randrange(10 ** 6)))
        self.entry = r.choice((None, "", "p/X.class"))
        self.squash = depth > 0 and r.random() < 0.15
        self.kids = [Node(r, depth + 1) for _ in range(r.choice((0, 1, 2, 4)))] if self.kind == "Super" else []
        self.mark = r.random() < 0.5
        if self.kind == "Super":
            self.changed = any(k.changed for k in self.kids)
            self.ignored = self.changed and not any(k.changed and not k.ignored for k in self.kids)
        else:
            self.changed = self.kind != "Leaf" or r.random() < 0.6
            self.ignored = self.changed and self.mark

    def text(self):
        return self.desc or "%s %s" % (self.label, "changed" if self.changed else "unchanged")

    def make(self, L, opt):
        C = L.change
        node = self

        class Mixin:
            label = node.label

            def is_ignored(self, options):
                return self.is_change() and options.tag == 1 and node.mark

        class Leaf(Mixin, C.GenericChange):
            def check_impl(self):
                return node.changed, node.desc

        class Added(Mixin, C.Addition):
            def is_change(self):
                return True

        class Removed(Mixin, C.Removal):
            def is_change(self):
                return True

        class Super(C.SuperChange):
            label = node.label

            def collect_impl(self):
                for k in node.kids:
                    yield k.make(L, opt)

            def check_impl(self):
                changed, _ = C.SuperChange.check_impl(self)
                return changed, node.desc
        c = {"Leaf": Leaf, "Added": Added, "Removed": Removed, "Super": Super}[self.kind]("old", "new")
        c.check()
        if self.kind in ("Added", "Removed"):
            c.description = self.desc
        c.entry = self.entry
        if self.squash:
            s = C.squash(c, options=opt)
            if s.is_change() != c.is_change():
                raise ContractFail("the verdict is squashed")
            # what a comparison does with a part it has reported: it is changed as it was
            s.check()
            return s
        return c

    def listed(self, o, top=False):
        if self.changed:
            return bool(o["show ignored"]) or not self.ignored
        return bool(o["show unchanged"])

    def lines(self, o, depth=0):
        if not self.listed(o):
            return []
        t = self.text() + (" [IGNORED]" if self.ignored else "")
        out = ["  " * depth + escaped(t)]
        for k in [] if self.squash else self.kids:
            out += k.lines(o, depth + 1)
        return out

    def tree(self, o):
        kids = None
        if self.kind == "Super" and not self.squash:
            kids = [k.tree(o) for k in self.kids if k.listed(o)]
        return (self.text(), self.label, self.changed, self.ignored, self.entry or None, self.kind == "Added", self.kind == "Removed", kids)


def parsed(d):
    kids = d.get("children")
    return (d["description"], d["label"], d["is_change"], d["is_ignored"], d.get("entry"), d.get("is_addition", False), d.get("is_removal", False),
            None if kids is None else [parsed(k) for k in kids])


@contract
class RealReports(Contract):
    prop = "C25"
    name = "real reports"
    functions = ("javatools.report:TextReportFormat.run_impl", "javatools.report:JSONReportFormat.run_impl", "javatools.report:JSONChangeEncoder.default",
                 "javatools.report:ReportFormat.run", "javatools.report:quick_report", "javatools.report:Reporter.run")
    symbolic = False
    bound = "drawn trees of changes of at most four levels"
    cases_quick = 600

    def inputs(self, w):
        d = draw_options(w)
        d.update(seed=w.int("seed", 0, 2 ** 31), way=w.choice("way", ("stdout", "output", "reporter", "subreporter")),
                 indent=w.choice("indent", (None, 0, 4)))
        return d

    def run(self, L, inp):
        r = random.Random(inp["seed"])
        node = Node(r, 0)
        opt = options(inp)
        if inp["indent"] is not None:
            opt.json_indent = inp["indent"]
        change = node.make(L, opt)
        R = L.report
        with tempfile.TemporaryDirectory() as tmp:
            got = {}
            if inp["way"] in ("stdout", "output"):
                for f in (R.TextReportFormat, R.JSONReportFormat):
                    opt.output = os.path.join(tmp, "out") if inp["way"] == "output" else None
                    s = io.StringIO()
                    with contextlib.redirect_stdout(s):
                        R.quick_report(f, change, opt)
                    if opt.output:
                        ensure(s.getvalue() == "", "nothing on the standard output")
                        with open(opt.output) as fh:
                            s = io.StringIO(fh.read())
                    got[f.extension] = s.getvalue()
            else:
                base = os.path.join(tmp, "report")
                rep = R.Reporter(base, "Top", opt)
                names = r.choice((("text", "json"), ("json", "txt", "json"), ("txt", "text", "json")))
                rep.add_formats_by_name(list(names))
                where = os.path.join(base, "Top")
                if inp["way"] == "subreporter":
                    rep = rep.subreporter("p/x.jar", "Sub")
                    where = os.path.join(base, "p/x.jar", "Sub")
                if r.random() < 0.5:
                    rep.setup()
                rep.run(change)
                found = sorted(os.path.join(d, f) for d, _, fs in os.walk(tmp) for f in fs)
                ensure_eq(found, sorted((where + ".json", where + ".text")), "one file of each format, in its place")
                for ext in (".text", ".json"):
                    with open(where + ext) as fh:
                        got[ext] = fh.read()
        ensure_eq(got[".text"].splitlines(), node.lines(inp), "the lines of the text report")
        ensure_eq(parsed(json.loads(got[".json"])["report"]), node.tree(inp), "the tree of the JSON report")

    def spec(self, inp):
        return None
