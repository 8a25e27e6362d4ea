"""C15: serialised manifests never exceed the 72-byte line limit and lose nothing"""
import random
from pv.api import *

MODULES = ("javatools", "javatools.change", "javatools.dirutils", "javatools.manifest")

SEPS = ("\n", "\r\n", "\r")
ALPHA = "abcXYZ019-_ :*\u00e9\u4e2d\U0001f600"
KEYALPHA = "abcXYZ019-_\u00e9\u4e2d"


class Buffer:
    """io.BytesIO: written front to back, or read front to back"""
    def __init__(self, data=b""):
        self.data = data
        self.pos = 0

    def read(self, n=None):
        start = self.pos
        if n is None or (isinstance(n, int) and n < 0):
            part = self.data[start:]
            self.pos = start + len(part)
            return part
        # beyond the end there is nothing more to read, wherever the position
        self.pos = start + n
        return self.data[start:start + n]

    def write(self, b):
        self.data = self.data + b
        return len(b)

    def getvalue(self):
        return self.data

    def close(self):
        pass


class Sink:
    """a binary stream: what is written to it, every literal byte by itself and every unknown piece by itself"""
    def __init__(self):
        self.out = table(0, None, list)

    def write(self, b):
        for x in atoms(b):
            self.out.append(x)
        return len(b)


def atoms(b):
    if not symbolic():
        return [b]
    from pv import vals
    return vals.atoms(b)


def folded(key, val, sep):
    """the line of a key and value, broken up: 70 bytes, then any number of times a space and 69 bytes"""
    n = 68 - len(key)
    if len(val) <= n:
        return table(0, None, list) + atoms(key) + atoms(b": ") + atoms(val) + atoms(sep)
    more = (len(val) - n + 68) // 69
    note(more)
    return table(0, None, list) + atoms(key) + atoms(b": ") + atoms(val[0:n]) + \
        flat(more, lambda i: tuple(atoms(sep + b" " + val[n + 69 * i:n + 69 + 69 * i])), list) + atoms(sep)


def text(w, name, lens):
    """text without lone surrogates"""
    def gen(r):
        n = r.choice(lens)
        if r.random() < 0.5:
            return "".join(r.choice("ab") for _ in range(n))
        return "".join(r.choice(ALPHA) for _ in range(n))
    s = w.str(name, alpha=ALPHA, gen=gen)
    if not w.sym:
        try:
            s.encode("utf-8")
        except UnicodeError:
            raise Reject("no text")
    return s


@contract
class Folding(Contract):
    prop = "C15"
    name = "write_key_val"
    functions = ("javatools.manifest:write_key_val",)
    must_cover = ("short", "folded", "refused")
    cases_quick = 4000

    def inputs(self, w):
        key = text(w, "key", (0, 1, 1, 3, 4, 20, 34, 60, 67, 68, 69, 70, 90))
        val = text(w, "val", (0, 1, 5, 20, 60, 64, 65, 66, 67, 68, 69, 130, 136, 200, 205, 206, 207, 208, 300))
        sep = w.choice("sep", SEPS)
        return (key, val, sep)

    def setup(self, inp):
        pass

    def callee(self, L, inp):
        return {"_io:BytesIO": Buffer}

    def kv(self, inp):
        return inp[0].encode("utf-8") + b": " + inp[1].encode("utf-8")

    def forms(self, inp):
        n = 68 - len(inp[0].encode("utf-8"))
        val = inp[1].encode("utf-8")
        return {"part": lambda i, init: val[n + 69 * i:n + 69 + 69 * i],
                "rest": lambda i, init: val[n + 69 * i:],
                "pos": lambda i, init: 139 + 69 * i}

    def run(self, L, inp):
        s = Sink()
        L.manifest.write_key_val(s, inp[0], inp[1], inp[2])
        return s.out if symbolic() else b"".join(s.out)

    def post(self, inp, got):
        key, val, sep = inp
        k = key.encode("utf-8")
        if len(k) == 0 or len(k) > 68:
            cover("refused")
            ensure(got[0] == "raise" and type(got[1]).__name__ == "ManifestKeyException", "a key of no or too much length is refused")
            return
        ensure(got[0] == "ret", "the pair is written")
        kv = self.kv(inp)
        cover("short" if len(kv) <= 70 else "folded")
        if symbolic():
            ensure_eq(got[1], folded(k, val.encode("utf-8"), sep.encode("utf-8")), "the folded line")
            return
        out = got[1]
        br = sep.encode("utf-8")
        ensure(out.endswith(br), "the last line is ended")
        if sep in key or sep in val or (sep == "\n" and "\r\n" in key + val):
            return
        lines = out[:-len(br)].split(br)
        ensure(all(len(x) + 2 <= 72 for x in lines), "no line exceeds 72 bytes")
        ensure(all(x[:1] == b" " for x in lines[1:]), "continuation lines begin with a space")
        ensure(lines[0] + b"".join(x[1:] for x in lines[1:]) == kv, "without the breaks the text is that of key and value")


def sections(sep, *blocks):
    return b"".join(b"".join(concrete_fold(k, v, sep) for k, v in b) + sep.encode("utf-8") for b in blocks)


def concrete_fold(key, val, sep):
    return b"".join(folded(key.encode("utf-8"), val.encode("utf-8"), sep.encode("utf-8")))


class Pairs:
    """a section of the given keys and values"""
    def __init__(self, pairs):
        self.pairs = pairs

    def items(self):
        return self.pairs

    def keys(self):
        return [k for k, v in self.pairs]

    def values(self):
        return [v for k, v in self.pairs]

    def __iter__(self):
        return iter([k for k, v in self.pairs])

    def __getitem__(self, key):
        if symbolic():
            j = place(key)
            if not 0 <= j < len(self.pairs):
                raise KeyError(key)
            return self.pairs[j][1]
        return dict(self.pairs)[key]


def place(key):
    """the keys of a section are distinct: each has its own place"""
    return abstract("place", (key,), "int")


def write_pair(stream, key, val, linesep=None):
    """proved as write_key_val, for keys it accepts"""
    stream.out.append(("pair", key, val, linesep))


@contract
class SectionStore(Contract):
    prop = "C15"
    name = "section store"
    functions = ("javatools.manifest:ManifestSection.store",)
    summaries = {"javatools.manifest:write_key_val": write_pair}
    must_cover = ("written",)

    def inputs(self, w):
        def pair(w, k):
            key, val = text(w, "key", (1, 4, 60, 68)), text(w, "val", (0, 5, 60, 68, 200))
            if not w.sym and not 0 < len(key.encode("utf-8")) < 69:
                raise Reject("key refused")
            return key, val
        pairs = w.seq("pair", pair)
        if w.sym:
            assume_forall(len(pairs), lambda k: place(pairs[k][0]) == k)
        elif len({k for k, v in pairs}) < len(pairs):
            raise Reject("keys are distinct")
        return (pairs, w.choice("sep", SEPS))

    def run(self, L, inp):
        s = Sink()
        r = L.manifest.ManifestSection.store(Pairs(inp[0]), s, inp[1])
        return s.out

    def spec(self, inp):
        pairs, sep = inp
        cover("written")
        if symbolic():
            return table(len(pairs), lambda k: ("pair", pairs[k][0], pairs[k][1], sep), list) + atoms(sep.encode("utf-8"))
        return sections(sep, pairs)

    def post(self, inp, got):
        ensure(got[0] == "ret", "the section is written")
        if symbolic():
            ensure_eq(got[1], self.spec(inp), "every pair in order, then a blank line")
        else:
            ensure(b"".join(got[1]) == self.spec(inp), "every pair in order, then a blank line")


class Ranked:
    """a section, sorted somewhere among others"""
    def __init__(self, mark, rank):
        self.mark, self.rank = mark, rank

    def __lt__(self, o):
        return self.rank < o.rank

    def __gt__(self, o):
        return self.rank > o.rank

    def store(self, stream, linesep="?"):
        stream.write(self.mark)
        stream.seps.append(linesep)

    def get_data(self, linesep="?"):
        return self.mark


class Order:
    """a binary stream that keeps what is written, piece by piece"""
    def __init__(self):
        self.out = []
        self.seps = []

    def write(self, b):
        self.out.append(b)

    def getvalue(self):
        return self.out

    def close(self):
        pass


class Main:
    """a manifest, but for its sections"""
    def __init__(self, subs, linesep):
        self.sub_sections, self.linesep = subs, linesep

    def store(self, stream, linesep=None):
        stream.write("all")
        stream.seps.append(linesep)


def main_section(self, stream, linesep="?"):
    """proved as section store"""
    stream.write("main")
    stream.seps.append(linesep)


@contract
class ManifestStore(Contract):
    prop = "C15"
    name = "manifest store"
    functions = ("javatools.manifest:Manifest.store", "javatools.manifest:Manifest.get_main_section",
                 "javatools.manifest:Manifest.get_data", "javatools.manifest:ManifestSection.get_data")
    bound = "up to three named sections"
    summaries = {"javatools.manifest:ManifestSection.store": main_section}
    concrete = False
    must_cover = ("store", "get_data", "get_main_section", "section get_data", "reordered")

    def inputs(self, w):
        n = w.choice("n", (0, 1, 2, 3))
        ranks = tuple([w.int("rank%d" % k) for k in range(n)])
        return (w.choice("what", ("store", "get_data", "get_main_section", "section get_data")), ranks,
                w.choice("own", (None, "\r\n", "\n")), w.choice("sep", (None, "\n", "\r\n", "\r")))

    def callee(self, L, inp):
        return {"_io:BytesIO": Order, "six:BytesIO": Order}

    def run(self, L, inp):
        what, ranks, own, sep = inp
        subs = {}
        for k, r in enumerate(ranks):
            subs["sub%d" % k] = Ranked("sub%d" % k, r)
        m = Main(subs, own)
        M = L.manifest.Manifest
        if what == "store":
            s = Order()
            M.store(m, s, sep)
            return s.out, s.seps
        if what == "section get_data":
            return L.manifest.ManifestSection.get_data(m, sep or "\n"), ()
        return getattr(M, what)(m, sep), ()

    def post(self, inp, got):
        what, ranks, own, sep = inp
        ensure(got[0] == "ret", "the manifest is written")
        out, seps = got[1]
        cover(what)
        if what == "store":
            import os
            want = sep or own or os.linesep
            ensure(all(x == want for x in seps), "every section has the line ending that was asked for")
            ensure(out[0] == "main" and sorted(out[1:]) == ["sub%d" % k for k in range(len(ranks))],
                   "the main section, then every section once")
            if out != sorted(out):
                cover("reordered")
        elif what == "get_main_section":
            ensure(out == ["main"], "the main section alone")
        else:
            ensure(out == ["all"], "what store writes")


@contract
class SetItem(Contract):
    prop = "C15"
    name = "setting a key"
    functions = ("javatools.manifest:ManifestSection.__setitem__", "javatools.manifest:ManifestSection.__init__")
    must_cover = ("refused", "added", "replaced")

    def inputs(self, w):
        return (text(w, "name", (1, 10, 100)), text(w, "key", (1, 1, 4, 67, 68, 69, 70)), text(w, "val", (0, 5, 60)),
                w.choice("same", (False, True)))

    def run(self, L, inp):
        name, key, val, same = inp
        s = L.manifest.ManifestSection(name)
        s["Other"] = "o"
        if same:
            s["Other"] = val
            return list(s.items())
        try:
            s[key] = val
        except L.manifest.ManifestKeyException:
            return "refused", list(s.items())
        return list(s.items())

    def spec(self, inp):
        name, key, val, same = inp
        if same or key == "Other":
            cover("replaced")
            return [("Name", name), ("Other", val)]
        if key == "Name":
            return [("Name", val), ("Other", "o")]
        if len(key) > 68:
            cover("refused")
            return "refused", [("Name", name), ("Other", "o")]
        cover("added")
        return [("Name", name), ("Other", "o"), (key, val)]


@contract
class Whole(Contract):
    """the serialised manifest, taken apart by an independent reader"""
    prop = "C15"
    name = "serialised manifest"
    functions = ("javatools.manifest:Manifest.store", "javatools.manifest:ManifestSection.store", "javatools.manifest:write_key_val")
    symbolic = False
    bound = "random manifests of up to four sections, keys and values up to 300 characters around the folding boundary"
    cases_quick = 1500
    cases_thorough = 20000
    must_cover = ("refused", "written")

    def inputs(self, w):
        r = random.Random(w.int("seed", 0, 2 ** 31))
        secs = []
        for j in range(r.randrange(5)):
            pairs = {}
            for k in range(r.randrange(5)):
                pairs["".join(r.choice(KEYALPHA) for _ in range(r.choice((1, 3, 20, 22, 23, 34, 35, 66, 67, 68))))] = \
                    "".join(r.choice(ALPHA) for _ in range(r.choice((0, 1, 5, 30, 60, 64, 65, 66, 67, 68, 69, 120, 206, 300))))
            secs.append(("s%d" % j + "".join(r.choice(ALPHA) for _ in range(r.choice((0, 5, 59, 60, 61, 62, 63, 64, 150)))),
                         list(pairs.items())))
        return (tuple(secs), r.choice(SEPS + (None,)), r.choice(SEPS + (None,)))

    def run(self, L, inp):
        secs, own, sep = inp
        m = L.manifest.Manifest(linesep=own)
        for j, (name, pairs) in enumerate(secs):
            s = m if j == 0 else m.create_section(name)
            for k, v in pairs:
                s[k] = v
        return m.get_data(sep), m.get_main_section(sep), [s.get_data(sep or own or os_linesep()) for s in m.sub_sections.values()]

    def post(self, inp, got):
        secs, own, sep = inp
        want = []
        for j, (name, pairs) in enumerate(secs or (("", []),)):
            d = {"Manifest-Version": "1.0"} if j == 0 else {"Name": name}
            d.update(pairs)
            want.append(list(d.items()))
        if any(not 0 < len(k.encode("utf-8")) < 69 for s in want for k, v in s):
            cover("refused")
            ensure(got[0] == "raise" and type(got[1]).__name__ == "ManifestKeyException", "a key of no or too much length is refused")
            return
        cover("written")
        ensure(got[0] == "ret", "the manifest is written")
        data, main, subs = got[1]
        br = (sep or own or os_linesep()).encode("utf-8")
        ensure(data[:len(main)] == main, "the main section is first")
        ensure(main == sections(br.decode(), want[0]), "the main section")
        ensure(subs == [sections(br.decode(), s) for s in want[1:]], "the data of a section")
        blocks = data.split(br + br)
        ensure(blocks[-1] == b"", "a blank line ends the last section")
        found = []
        for b in blocks[:-1]:
            lines = b.split(br)
            ensure(all(len(x) + 2 <= 72 for x in lines), "no line exceeds 72 bytes")
            joined = []
            for x in lines:
                if x[:1] == b" ":
                    joined[-1] += x[1:]
                else:
                    joined.append(x)
            found.append([tuple(x.decode("utf-8").split(": ", 1)) for x in joined])
        ensure(found[0] == want[0], "keys and values of the main section in insertion order")
        ensure(sorted(found[1:]) == sorted(want[1:]), "keys and values of every section in insertion order")


def os_linesep():
    import os
    return os.linesep
