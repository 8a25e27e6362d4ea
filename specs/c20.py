"""C20: comparing two archives classifies every entry exactly once"""
import io, os, random, tempfile, zipfile
from pv.api import *

MODULES = ("javatools.dirutils", "javatools.ziputils")

CHUNK = 2 ** 14


class Info:
    """directory entry of an archive"""
    def __init__(self, name, size, crc):
        self.filename, self.file_size, self.CRC = name, size, crc
        self.compress_size = size


class Zip:
    def __init__(self, names, side=None):
        self.names, self.side = names, side

    def namelist(self):
        return self.names


@contract
class Partition(Contract):
    """archives with any entries, in any order, also repeated"""
    prop = "C20"
    name = "entry partition"
    functions = ("javatools.ziputils:compare_zips",)
    split_inst = False
    concrete = False

    def inputs(self, w):
        return (w.names("left", lo=1), w.names("right", lo=1))

    def callee(self, L, inp):
        def different(left, right, f):
            ensure(left.side == "left" and right.side == "right", "the sides are kept apart")
            return abstract("different", (f,), "bool")
        return {"javatools.ziputils:_different": different}

    def forms(self, inp):
        left, right = inp
        # what is still to be reported as right-only
        return {"content": lambda i, init: SetForm(set(right) - set(left[:i]))}

    def run(self, L, inp):
        return tuple(L.ziputils.compare_zips(Zip(inp[0], "left"), Zip(inp[1], "right")))

    def spec(self, inp):
        left, right = inp

        def on_left(k):
            f = left[k]
            if f in left[:k]:
                return ()
            if f not in right:
                return (("left only", f),)
            if f[-1] == "/":
                return ()
            if abstract("different", (f,), "bool"):
                return (("changed", f),)
            return (("same", f),)

        def on_right(k):
            f = right[k]
            if f in right[:k]:
                return ()
            if f in left:
                return ()
            return (("right only", f),)
        return tuple(flat(len(left), on_left)) + tuple(flat(len(right), on_right))


@contract
class Different(Contract):
    """sizes and checksums are those of the content, so equal contents have equal ones"""
    prop = "C20"
    name = "entry comparison"
    functions = ("javatools.ziputils:_different",)
    concrete = False
    must_cover = ("same", "changed", "collision", "size")

    def inputs(self, w):
        return (w.str("name", lo=1), w.str("left"), w.str("right"), w.int("lsize", 0), w.int("rsize", 0), w.int("lcrc", 0), w.int("rcrc", 0))

    def callee(self, L, inp):
        def deep(left, right, entry):
            ensure(left.side == "left" and right.side == "right" and entry == inp[0], "the entry of both sides")
            return inp[1] != inp[2]
        return {"javatools.ziputils:_deep_different": deep}

    def run(self, L, inp):
        name, l, r, ls, rs, lc, rc = inp
        same = bool(l == r)
        # a checksum and a size of the content
        assume(not same or ls == rs and lc == rc)

        class Side(Zip):
            def getinfo(self, f):
                ensure(f == name, "the entry")
                return Info(f, ls, lc) if self.side == "left" else Info(f, rs, rc)
        return bool(L.ziputils._different(Side((), "left"), Side((), "right"), name))

    def spec(self, inp):
        name, l, r, ls, rs, lc, rc = inp
        if l == r:
            cover("same")
            return False
        if ls != rs:
            cover("size")
        elif lc == rc:
            cover("collision")
        cover("changed")
        return True


class Stream:
    """a binary stream that is read to the end; fewer bytes than asked for are returned at the end only"""
    def __init__(self, data):
        self.data, self.pos, self.closed = data, 0, False

    def read(self, n=-1):
        ensure(not self.closed, "the stream is open")
        if n < 0:
            n = len(self.data)
        got = self.data[self.pos:self.pos + n]
        self.pos = self.pos + len(got)
        return got

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True

    def close(self):
        self.closed = True


def chunks(data, size):
    """the pieces of that size; the last may be shorter, none is empty"""
    n = (len(data) + size - 1) // size
    return table(n, lambda k: data[k * size:min(k * size + size, len(data))])


@contract
class Chunks(Contract):
    prop = "C20"
    name = "chunks of an entry"
    functions = ("javatools.ziputils:chunk_zip_entry",)
    must_cover = ("empty", "one", "many")
    look_back = True

    def inputs(self, w):
        return (w.bytes("data"), w.choice("size", (CHUNK, 1, 2, 3, 7)))

    def forms(self, inp):
        data, size = inp

        def at(i):
            return min((i + 1) * size, len(data))
        # the chunk is read before each iteration, or in it
        return {"pos": lambda i, init: at(i), "data": lambda i, init: data[min(i * size, len(data)):at(i)],
                "pos/in": lambda i, init: at(i - 1)}

    def run(self, L, inp):
        data, size = inp
        s = Stream(data)

        class Z:
            def open(self, name, mode="r"):
                ensure(name == "n" and mode in ("r", "rb"), "the entry, for reading")
                return s
        out = tuple(L.ziputils.chunk_zip_entry(Z(), "n", size))
        ensure(s.closed, "the stream is closed")
        return out

    def spec(self, inp):
        data, size = inp
        cover("empty" if len(data) == 0 else "one" if len(data) <= size else "many")
        return chunks(data, size)


@contract
class Deep(Contract):
    """the entries differ exactly when their sequences of chunks do"""
    prop = "C20"
    name = "content comparison"
    functions = ("javatools.ziputils:_deep_different",)
    concrete = False
    must_cover = ("same", "changed")

    def inputs(self, w):
        return (w.seq("left", lambda w, k: w.str("chunk", lo=1)), w.seq("right", lambda w, k: w.str("chunk", lo=1)))

    def callee(self, L, inp):
        def chunk_zip_entry(zipfile, name, chunksize=CHUNK):
            ensure(name == "n", "the entry")
            return iter(inp[0] if zipfile.side == "left" else inp[1])
        return {"javatools.ziputils:chunk_zip_entry": chunk_zip_entry}

    def run(self, L, inp):
        return bool(L.ziputils._deep_different(Zip((), "left"), Zip((), "right"), "n"))

    def spec(self, inp):
        l, r = inp
        if len(l) != len(r) or exists(len(l), lambda k: l[k] != r[k]):
            cover("changed")
            return True
        cover("same")
        return False


@contract
class Lemma(Contract):
    """contents whose chunks are the same are the same"""
    prop = "C20"
    name = "lemma: chunks determine the content"
    functions = ()

    def inputs(self, w):
        l, r = w.bytes("left"), w.bytes("right")
        return l, r, w.int("i", 0)

    def run(self, L, inp):
        l, r, i = inp
        n, m = (len(l) + CHUNK - 1) // CHUNK, (len(r) + CHUNK - 1) // CHUNK
        if n != m:
            return True
        note(i - i // CHUNK * CHUNK)
        cl, cr = chunks(l, CHUNK), chunks(r, CHUNK)
        for k in (i // CHUNK, n - 1):
            if k >= 0 and k < n and cl[k] != cr[k]:
                return True
        # what is left: no such chunk differs
        return len(l) == len(r) and (i >= len(l) or l[i] == r[i])

    def spec(self, inp):
        return True


@contract
class Collect(Contract):
    prop = "C20"
    name = "collected lists"
    functions = ("javatools.ziputils:collect_compare_zips_into", "javatools.ziputils:collect_compare_zips")
    must_cover = ("into", "plain")

    def inputs(self, w):
        return (w.seq("event", lambda w, k: (w.choice("kind", ("left only", "right only", "changed", "same")), w.str("name"))),
                w.choice("how", ("into", "plain")))

    def run(self, L, inp):
        events, how = inp
        Z = L.ziputils

        def compare_zips(left, right):
            ensure((left, right) == ("l", "r"), "the archives")
            return iter(events)
        save = Z.compare_zips
        Z.compare_zips = compare_zips
        cover(how)
        try:
            if how == "plain":
                return Z.collect_compare_zips("l", "r")
            return Z.collect_compare_zips_into("l", "r", ["a"], ["b"], ["c"], ["d"])
        finally:
            Z.compare_zips = save

    def spec(self, inp):
        events, how = inp
        out = []
        for pre, kind in (("a", "right only"), ("b", "left only"), ("c", "changed"), ("d", "same")):
            got = flat(len(events), lambda k, kind=kind: (events[k][1],) if events[k][0] == kind else (), list)
            out.append([pre] + got if how == "into" else got)
        return tuple(out)


# ---------------------------------------------------------------- real archives

@contract
class Archives(Contract):
    """real zip files and directories of the same entries, against what was put in them"""
    prop = "C20"
    name = "archives"
    functions = ("javatools.ziputils:compare", "javatools.ziputils:compare_zips", "javatools.ziputils:collect_compare",
                 "javatools.ziputils:zip_file", "javatools.ziputils:ExplodedZipFile.open", "javatools.ziputils:_collect_infos")
    symbolic = False
    bound = "random archives of up to eight entries, some with content of several chunks"
    must_cover = ("left only", "right only", "changed", "same", "zip/zip", "zip/dir", "dir/zip", "dir/dir", "long", "crc collision")
    cases_quick = 250
    cases_thorough = 3000

    def inputs(self, w):
        return (w.int("seed", 0, 2 ** 31),)

    def make(self, seed):
        r = random.Random(seed)

        def content():
            k = r.random()
            if k < 0.15:
                cover("long")
                return bytes([r.randrange(256)]) * r.choice((CHUNK - 1, CHUNK, CHUNK + 1, 2 * CHUNK, 3 * CHUNK + 5))
            return r.choice((b"", b"\r\n", b"\n", b"\xff\xfe", b"a\rb", bytes(r.randrange(256) for _ in range(r.randrange(30)))))

        def change(d):
            k = r.randrange(6)
            if k == 0 and len(d) >= 5:
                # the same checksum
                cover("crc collision")
                p = r.randrange(len(d) - 4)
                return collide(d, p)
            if k == 1 and d:
                p = r.choice((0, len(d) - 1, r.randrange(len(d))))
                return d[:p] + bytes([d[p] ^ 1]) + d[p + 1:]
            if k == 2:
                return d + b"x"
            if k == 3:
                return d[:-1]
            if k == 4:
                return d.replace(b"\r\n", b"\n")
            return content()
        names = ("a", "b.txt", "d/a", "d/e/a", "e/", "e/f/", "d/", "META-INF/", "META-INF/MANIFEST.MF", "z\u00e9", "a b", "*")
        left, right = {}, {}
        for n in r.sample(names, r.randrange(0, 9)):
            d = b"" if n.endswith("/") else content()
            k = r.random()
            if k < 0.8:
                left[n] = d
            if k > 0.2:
                right[n] = d if n.endswith("/") or r.random() < 0.5 else change(d)
        for side in (left, right):
            for n in list(side):
                # a directory tree has its directories
                parts = n.split("/")
                for j in range(1, len(parts)):
                    side.setdefault("/".join(parts[:j]) + "/", b"")
        return left, right, r.choice(("zip", "dir")), r.choice(("zip", "dir")), r.random() < 0.3

    def run(self, L, inp):
        left, right, lk, rk, twice = self.make(inp[0])
        cover(lk + "/" + rk)
        Z = L.ziputils
        with tempfile.TemporaryDirectory() as d:
            for side, kind, fn in ((left, lk, "l"), (right, rk, "r")):
                if kind == "zip":
                    with zipfile.ZipFile(os.path.join(d, fn), "w", zipfile.ZIP_DEFLATED) as z:
                        for n, data in side.items():
                            if twice and not n.endswith("/"):
                                import warnings
                                with warnings.catch_warnings():
                                    warnings.simplefilter("ignore")
                                    z.writestr(n, b"replaced")
                                    z.writestr(n, data)
                            else:
                                z.writestr(n, data)
                else:
                    for n, data in side.items():
                        f = os.path.join(d, fn, n)
                        os.makedirs(os.path.dirname(f), exist_ok=True)
                        if not n.endswith("/"):
                            with open(f, "wb") as fd:
                                fd.write(data)
                    os.makedirs(os.path.join(d, fn), exist_ok=True)
            l, r = os.path.join(d, "l"), os.path.join(d, "r")
            events = list(Z.compare(l, r))
            lists = [list(x) for x in Z.collect_compare(l, r)]
            with Z.open_zip(l) as lz, Z.open_zip(r) as rz:
                again = [list(x) for x in Z.collect_compare_zips(lz, rz)]
        return sorted(events), [sorted(x) for x in lists], [sorted(x) for x in again]

    def post(self, inp, got):
        left, right, lk, rk, twice = self.make(inp[0])
        ensure(got[0] == "ret", "the archives are compared")
        want = []
        for n in set(left) | set(right):
            if n not in right:
                want.append(("left only", n))
            elif n not in left:
                want.append(("right only", n))
            elif not n.endswith("/"):
                want.append(("same" if left[n] == right[n] else "changed", n))
        for k, n in want:
            cover(k)
        ensure_eq(got[1][0], sorted(want), "events")
        lists = [sorted(n for k, n in want if k == kind) for kind in ("right only", "left only", "changed", "same")]
        ensure_eq(got[1][1], lists, "lists")
        ensure_eq(got[1][2], lists, "lists of opened archives")


def collide(d, p):
    """other data with the same CRC and size: one byte before position p+4 differs and four after it make up for it"""
    import zlib
    q = bytearray(d)
    q[p] ^= 0x55
    target = zlib.crc32(d[:p + 5])
    # CRC is affine in the four bytes: solve for them
    base = zlib.crc32(bytes(q[:p + 1]) + b"\0\0\0\0")
    rows = []
    for b in range(32):
        x = bytearray(4)
        x[b // 8] = 1 << (b % 8)
        rows.append((zlib.crc32(bytes(q[:p + 1]) + bytes(x)) ^ base, 1 << b))
    want, pick = base ^ target, 0
    basis = {}
    for v, m in rows:
        while v:
            h = v.bit_length()
            if h not in basis:
                basis[h] = (v, m)
                break
            v, m = v ^ basis[h][0], m ^ basis[h][1]
    while want:
        v, m = basis[want.bit_length()]
        want, pick = want ^ v, pick ^ m
    q[p + 1:p + 5] = bytes((pick >> (8 * k)) & 255 for k in range(4))
    assert zlib.crc32(bytes(q)) == zlib.crc32(d) and bytes(q) != d
    return bytes(q)
