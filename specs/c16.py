"""C16: parsing a manifest recovers what was serialised"""
import random
from pv.api import *

MODULES = ("javatools", "javatools.change", "javatools.dirutils", "javatools.manifest")

KEYALPHA = "abcXYZ019-_"
# anything but line breaks and NUL; U+0085, U+2028 and the like are no line breaks of a manifest
ALPHA = "abXY019-_ ::\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029\t\u00e9\u4e2d\U0001f600"


class Data:
    """an encoded manifest, by its lines"""
    def __init__(self, lines):
        self.lines = lines

    def splitlines(self, *a):
        return list(self.lines)

    def __len__(self):
        return len(self.lines)

    def __bool__(self):
        return len(self.lines) > 0


def no_nul(b):
    return b.replace(b"\x00", b"")


def text(b):
    return b.decode("utf-8", "ignore")


def sections_of(lines):
    """[[key, value], ..] of every section, or None where a line is refused"""
    out, curr = [], []
    for line in lines:
        line = no_nul(line)
        if line == b"":
            if curr:
                out.append(curr)
            curr = []
        elif line[0:1] == b" ":
            if not curr:
                return None
            curr[-1][1] = curr[-1][1] + line[1:]
        else:
            at = line.find(b":")
            if at < 0:
                return None
            rest = line[at + 1:]
            curr.append([line[0:at], rest[1:]])
    if curr:
        out.append(curr)
    return [[(text(k), text(v)) for k, v in s] for s in out]


@contract
class ParseSections(Contract):
    prop = "C16"
    name = "parse_sections"
    functions = ("javatools.manifest:parse_sections",)
    bound = "up to three lines; keys hold no space, and NUL characters are placed, not anywhere"
    must_cover = ("parsed", "refused", "continued", "blank")
    cases_quick = 4000

    def inputs(self, w):
        if w.sym:
            return tuple([self.line(w, str(k)) for k in range(w.choice("n", (0, 1, 2, 3)))])
        r = random.Random(w.int("seed", 0, 2 ** 31))
        lines = []
        for k in range(r.randrange(13)):
            t = "".join(r.choice(ALPHA) for _ in range(r.choice((0, 1, 5, 30)))).replace(":", "")
            e = t.encode("utf-8")
            cut = r.randrange(len(e) + 1)
            e = e[cut:] if r.random() < 0.5 else e[:cut]
            what = r.random()
            if what < 0.35:
                e = "".join(r.choice(KEYALPHA) for _ in range(r.choice((0, 1, 4)))).encode() + b": " + e
            elif what < 0.8:
                e = b" " + e
            elif what < 0.95:
                e = b""
            elif what < 0.97:
                e = b"a\x00b: \x00" + e
            lines.append(e)
        return tuple(lines)

    def line(self, w, k):
        what = w.choice("kind" + k, ("blank", "more", "pair", "bare", "bad", "nul", "nul pair"))
        if what == "blank":
            return b""
        if what == "nul":
            return b"\x00"
        text = w.free_of(w.bstr("text" + k), "\x00")
        if what == "more":
            return b" " + text
        key = w.free_of(w.bstr("key" + k), "\x00: ", True)
        if what == "bad":
            return key
        if what == "bare":
            return key + b":"
        if what == "pair":
            return key + b": " + text
        return key + b"\x00: \x00" + text

    def run(self, L, inp):
        data = Data(inp) if symbolic() else b"\n".join(inp)
        return [[(k, "".join(vals)) for k, vals in s] for s in L.manifest.parse_sections(data)]

    def post(self, inp, got):
        want = sections_of(inp)
        if want is None:
            cover("refused")
            ensure(got[0] == "raise" and type(got[1]).__name__ == "MalformedManifest", "a malformed line is refused")
            return
        cover("parsed")
        if len(inp) > 1 and want and len(inp) > sum([len(s) for s in want]):
            cover("continued")
        if len(want) > 1:
            cover("blank")
        ensure(got[0] == "ret", "well-formed lines are accepted")
        ensure_eq(got[1], want, "keys and values")


class Target:
    """a section being filled"""
    def __init__(self):
        self.out = table(0, None, list)

    def __setitem__(self, k, v):
        self.out.append((k, v))

    def update(self, pairs):
        for k, v in pairs:
            self[k] = v


@contract
class Load(Contract):
    prop = "C16"
    name = "section load"
    functions = ("javatools.manifest:ManifestSection.load",)

    def inputs(self, w):
        return (w.seq("item", lambda w, k: (w.str("key"), [w.str("first"), w.str("second")][:w.choice("pieces", (1, 2))])),)

    def run(self, L, inp):
        t = Target()
        L.manifest.ManifestSection.load(t, inp[0])
        return t.out

    def spec(self, inp):
        items = inp[0]

        def pair(k):
            key, vals = items[k]
            return (key, vals[0] + vals[1] if len(vals) > 1 else vals[0])
        return table(len(items), pair, list)


@contract
class Linesep(Contract):
    prop = "C16"
    name = "detect_linesep"
    functions = ("javatools.manifest:detect_linesep",)

    def inputs(self, w):
        return (w.bstr("head", alpha="a\r\n"), w.bstr("tail", alpha="a\r\n"), w.choice("crlf", (False, True)))

    def data(self, inp):
        head, tail, crlf = inp
        return head + (b"\r\n" if crlf else b"\n") + tail

    def run(self, L, inp):
        return L.manifest.detect_linesep(self.data(inp))

    def post(self, inp, got):
        ensure(got[0] == "ret", "a line ending is found")
        if inp[2]:
            ensure(got[1] == "\r\n", "lines that end in both are recognised")
        elif not (b"\r\n" in self.data(inp)):
            ensure(got[1] == "\n", "lines that end in a line feed are recognised")


class Named:
    """what a manifest does with its sections"""
    def __init__(self):
        self.out = table(0, None, list)

    def __setitem__(self, k, v):
        self.out.append((k, v.loaded))


class Parsed:
    """a manifest, but for its content"""
    def __init__(self):
        self.loaded = None
        self.linesep = "?"
        self.sub_sections = Named()

    def load(self, items):
        self.loaded = items


def load(self, items):
    """stands for section load: the section holds exactly the items"""
    self.loaded = items


def primary(self):
    return self.loaded.name


class Items:
    def __init__(self, name):
        self.name = name


@contract
class Parse(Contract):
    prop = "C16"
    name = "parse"
    functions = ("javatools.manifest:Manifest.parse",)
    summaries = {"javatools.manifest:ManifestSection.load": load, "javatools.manifest:ManifestSection.primary": primary}
    concrete = False
    must_cover = ("some", "alone")

    def inputs(self, w):
        return (w.seq("section", lambda w, k: w.str("name"), lo=1), w.choice("sep", ("\n", "\r\n")))

    def callee(self, L, inp):
        names = inp[0]
        return {"javatools.manifest:parse_sections": lambda data: iter(table(len(names), lambda k: Items(names[k]))),
                "javatools.manifest:detect_linesep": lambda data: inp[1]}

    def run(self, L, inp):
        m = Parsed()
        L.manifest.Manifest.parse(m, b"data")
        return m.loaded.name, m.linesep, m.sub_sections.out

    def post(self, inp, got):
        names, sep = inp
        ensure(got[0] == "ret", "the manifest is parsed")
        first, linesep, subs = got[1]
        cover("some" if len(names) > 1 else "alone")
        ensure_eq(first, names[0], "the first section is the main one")
        ensure_eq(linesep, sep, "the line ending is kept")
        ensure_eq([(k, s.name) for k, s in subs], table(len(names) - 1, lambda k: (names[k + 1], names[k + 1]), list),
                  "every other section is found by its name")


@contract
class RoundTrip(Contract):
    prop = "C16"
    name = "round trip"
    functions = ("javatools.manifest:Manifest.parse", "javatools.manifest:parse_sections", "javatools.manifest:Manifest.store")
    symbolic = False
    bound = "random manifests of up to four sections, values up to 300 characters around the folding boundary"
    cases_quick = 2500
    cases_thorough = 25000

    def inputs(self, w):
        r = random.Random(w.int("seed", 0, 2 ** 31))
        secs = []
        for j in range(r.randrange(1, 5)):
            pairs = {}
            for k in range(r.randrange(5)):
                pairs["".join(r.choice(KEYALPHA) for _ in range(r.choice((1, 3, 20, 35, 66, 67, 68))))] = \
                    "".join(r.choice(ALPHA) for _ in range(r.choice((0, 1, 2, 5, 30, 60, 64, 65, 66, 67, 68, 69, 120, 206, 300))))
            secs.append(("s%d" % j + "".join(r.choice(ALPHA) for _ in range(r.choice((0, 5, 20, 59, 60, 61, 62, 63, 64, 150)))),
                         list(pairs.items())))
        return (tuple(secs), r.choice(("\n", "\r\n")))

    def run(self, L, inp):
        secs, sep = inp
        m = L.manifest.Manifest()
        for j, (name, pairs) in enumerate(secs):
            s = m if j == 0 else m.create_section(name)
            for k, v in pairs:
                s[k] = v
        data = m.get_data(sep)
        n = L.manifest.Manifest()
        n.parse(data)
        again = n.get_data()
        return list(n.items()), {k: list(v.items()) for k, v in n.sub_sections.items()}, again == data

    def post(self, inp, got):
        secs, sep = inp
        ensure(got[0] == "ret", "what was serialised is accepted")
        main, subs, same = got[1]
        d = {"Manifest-Version": "1.0"}
        d.update(secs[0][1])
        ensure(main == list(d.items()), "keys and values of the main section")
        want = {}
        for name, pairs in secs[1:]:
            d = {"Name": name}
            d.update(pairs)
            want[name] = list(d.items())
        ensure(subs == want, "keys and values of the named sections")
        ensure(same, "serialised again it is the same")
