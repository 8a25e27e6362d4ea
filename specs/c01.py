"""C01: binary readers return exactly the requested bytes or fail cleanly"""
import struct
from pv.api import *

FORMATS = (">H", ">I", ">B", ">b", ">h", ">i", ">q", ">f", ">d", ">HH", ">HHH", ">HIB", ">IHBi", ">4s", ">BBBBB", ">cH")
SIZES = {"B": 1, "b": 1, "c": 1, "H": 2, "h": 2, "I": 4, "i": 4, "f": 4, "q": 8, "d": 8}


def fmt_size(fmt):
    return struct.Struct(fmt).size


def decode(fmt, data, off):
    """spec: the fields of fmt at off, one after the other"""
    out = []
    for c in fmt[1:]:
        if c == "4":
            continue
        n = 4 if c == "s" else SIZES[c]
        raw = data[off:off + n]
        off = off + n
        if c == "s" or c == "c":
            out.append(raw)
        elif c == "f" or c == "d":
            out.append(struct.Struct(">" + c).unpack_from(raw, 0)[0])
        else:
            v = 0
            for k in range(n):
                v = v * 256 + raw[k]
            if c in "bhiq":
                if v >= 1 << (8 * n - 1):
                    v = v - (1 << (8 * n))
            out.append(v)
    return tuple(out)


class Buf(Contract):
    prop = "C01"

    def inputs(self, w):
        data = w.bytes("data", hi=None)
        off = w.nat("off", len(data))
        closed = w.bool("closed")
        fmt = w.choice("fmt", FORMATS)
        count = w.nat("count")
        return (data, off, closed, fmt, count)

    def make(self, L, inp):
        bu = L.pack.BufferUnpacker(inp[0], inp[1])
        if inp[2]:
            bu.close()
        return bu

    def op(self, L, bu, inp):
        raise NotImplementedError

    def run(self, L, inp):
        bu = self.make(L, inp)
        try:
            r = self.op(L, bu, inp)
            return ("ok", r, bu.offset, bu.data is None)
        except L.pack.UnpackException as e:
            return ("refused", e.bytes_wanted, e.bytes_present, bu.offset, bu.data is None)

    def avail(self, inp):
        return 0 if inp[2] else len(inp[0]) - inp[1]

    def want(self, inp):
        return fmt_size(inp[3])

    def spec(self, inp):
        off = 0 if inp[2] else inp[1]
        want, have = self.want(inp), self.avail(inp)
        if have < want:
            cover("refused")
            return ("refused", want, have, off, bool(inp[2]))
        cover("ok")
        return ("ok", self.value(inp, off), off + want, bool(inp[2]))

    def value(self, inp, off):
        return decode(inp[3], inp[0], off)
    must_cover = ("refused", "ok")


@contract
class BufUnpack(Buf):
    name = "BufferUnpacker.unpack"
    functions = ("javatools.pack:BufferUnpacker.unpack", "javatools.pack:BufferUnpacker.__init__", "javatools.pack:BufferUnpacker.close",
                 "javatools.pack:UnpackException.__init__")

    def op(self, L, bu, inp):
        return bu.unpack(inp[3])


@contract
class BufUnpackStruct(Buf):
    name = "BufferUnpacker.unpack_struct"
    functions = ("javatools.pack:BufferUnpacker.unpack_struct",)

    def op(self, L, bu, inp):
        return bu.unpack_struct(struct.Struct(inp[3]))


@contract
class BufRead(Buf):
    name = "BufferUnpacker.read"
    functions = ("javatools.pack:BufferUnpacker.read",)

    def want(self, inp):
        return inp[4]

    def inputs(self, w):
        i = Buf.inputs(self, w)
        if i[2]:
            w.require(i[4] > 0)
        return i

    def op(self, L, bu, inp):
        return bu.read(inp[4])

    def value(self, inp, off):
        return inp[0][off:off + inp[4]]


# ---------------------------------------------------------------- streams

class Stream:
    """a readable stream: read(n) gives the next n bytes, or all that are left"""
    def __init__(self, data, pos):
        self.data, self.pos, self.closed = data, pos, False

    def read(self, n):
        have = len(self.data) - self.pos
        k = n if n <= have else have
        r = self.data[self.pos:self.pos + k]
        self.pos = self.pos + k
        return r

    def close(self):
        self.closed = True


class Str(Buf):
    def make(self, L, inp):
        self.st = Stream(inp[0], inp[1])
        su = L.pack.StreamUnpacker(self.st)
        if inp[2]:
            su.close()
        return su

    def run(self, L, inp):
        su = self.make(L, inp)
        st = self.st
        try:
            r = self.op(L, su, inp)
            return ("ok", r, st.pos, st.closed)
        except L.pack.UnpackException as e:
            return ("refused", e.bytes_wanted, e.bytes_present, st.closed)

    def spec(self, inp):
        want, have = self.want(inp), self.avail(inp)
        if have < want:
            cover("refused")
            return ("refused", want, have, bool(inp[2]))
        cover("ok")
        return ("ok", self.value(inp, inp[1]), inp[1] + want, bool(inp[2]))


@contract
class StrUnpack(Str):
    name = "StreamUnpacker.unpack"
    functions = ("javatools.pack:StreamUnpacker.unpack", "javatools.pack:StreamUnpacker.close", "javatools.pack:StreamUnpacker.__init__")

    def op(self, L, su, inp):
        return su.unpack(inp[3])


@contract
class StrUnpackStruct(Str):
    name = "StreamUnpacker.unpack_struct"
    functions = ("javatools.pack:StreamUnpacker.unpack_struct",)

    def op(self, L, su, inp):
        return su.unpack_struct(struct.Struct(inp[3]))


@contract
class StrRead(Str):
    name = "StreamUnpacker.read"
    functions = ("javatools.pack:StreamUnpacker.read",)

    def inputs(self, w):
        i = Buf.inputs(self, w)
        if i[2]:
            w.require(i[4] > 0)
        return i

    def want(self, inp):
        return inp[4]

    def op(self, L, su, inp):
        return su.read(inp[4])

    def value(self, inp, off):
        return inp[0][off:off + inp[4]]


# ---------------------------------------------------------------- counted arrays

class Thing:
    """an object that reads itself: a length byte, then that many bytes"""
    def __init__(self, a, b=None):
        self.a, self.b, self.body = a, b, None

    def unpack(self, up):
        (n,) = up.unpack_struct(struct.Struct(">B"))
        self.body = up.read(n)


class Arr(Contract):
    """unpack_array and unpack_struct_array, on both readers"""
    prop = "C01"
    must_cover = ("ok", "refused")
    stream = False
    budget = 250

    def inputs(self, w):
        data = w.bytes("data", hi=None)
        off = w.nat("off", len(data))
        fmt = w.choice("fmt", (">H", ">HHHH", ">HIb", ">B"))
        return (data, off, fmt)

    def make(self, L, inp):
        if self.stream:
            return L.pack.StreamUnpacker(Stream(inp[0], inp[1]))
        return L.pack.BufferUnpacker(inp[0], inp[1])

    def pos(self, u):
        return u.data.pos if self.stream else u.offset

    def op(self, u, inp):
        return u.unpack_array(inp[2])

    def run(self, L, inp):
        u = self.make(L, inp)
        try:
            r = tuple(self.op(u, inp))
            return ("ok", r, self.pos(u))
        except L.pack.UnpackException as e:
            return ("refused",)

    def forms(self, inp):
        w = fmt_size(inp[2])
        return {"offset": lambda i, init: inp[1] + 2 + w * i, "pos": lambda i, init: inp[1] + 2 + w * i}

    def spec(self, inp):
        data, off, fmt = inp
        if len(data) - off < 2:
            cover("refused")
            return ("refused",)
        n = data[off] * 256 + data[off + 1]
        w = fmt_size(fmt)
        if off + 2 + n * w > len(data):
            cover("refused")
            return ("refused",)
        cover("ok")
        return ("ok", table(n, lambda k: decode(fmt, data, off + 2 + w * k)), off + 2 + n * w)


@contract
class BufArray(Arr):
    name = "BufferUnpacker.unpack_array"
    functions = ("javatools.pack:Unpacker.unpack_array",)


@contract
class StrArray(Arr):
    name = "StreamUnpacker.unpack_array"
    stream = True
    functions = ("javatools.pack:Unpacker.unpack_array",)


@contract
class BufStructArray(Arr):
    name = "BufferUnpacker.unpack_struct_array"
    functions = ("javatools.pack:Unpacker.unpack_struct_array",)

    def op(self, u, inp):
        return u.unpack_struct_array(struct.Struct(inp[2]))


@contract
class StrStructArray(BufStructArray):
    name = "StreamUnpacker.unpack_struct_array"
    stream = True


@contract
class BufObjects(Arr):
    name = "BufferUnpacker.unpack_objects"
    functions = ("javatools.pack:Unpacker.unpack_objects",)

    def cursor(self, data, off):
        """off(k): where the k-th object starts, in well-formed data"""
        def step(k, st):
            o = st["off"]
            if o < len(data):
                return {"off": o + 1 + data[o]}
            return {"off": o + 1}
        return Rec("off", {"off": "int"}, {"off": off + 2}, step, facts=lambda k, st: st["off"] >= off + 2 + k)

    def inputs(self, w):
        data, off, _f = Arr.inputs(self, w)
        return (data, off, w.opaque("arg"), self.cursor(data, off))

    def op(self, u, inp):
        return u.unpack_objects(Thing, inp[2], b=5)

    def run(self, L, inp):
        u = self.make(L, inp)
        try:
            r = tuple((o.a, o.b, o.body) for o in self.op(u, inp))
            return ("ok", r, self.pos(u))
        except L.pack.UnpackException as e:
            return ("refused",)

    def forms(self, inp):
        return {"offset": lambda i, init: inp[3].at(i)["off"], "pos": lambda i, init: inp[3].at(i)["off"]}

    def spec(self, inp):
        data, off, arg, cur = inp
        if len(data) - off < 2:
            cover("refused")
            return ("refused",)
        n = data[off] * 256 + data[off + 1]

        def bad(k):
            o = cur.at(k)["off"]
            return o >= len(data) or o + 1 + data[o] > len(data)
        if exists(n, bad):
            cover("refused")
            return ("refused",)
        cover("ok")

        def one(k):
            o = cur.at(k)["off"]
            return (arg, 5, data[o + 1:o + 1 + data[o]])
        return ("ok", table(n, one), cur.at(n)["off"])


@contract
class StrObjects(BufObjects):
    name = "StreamUnpacker.unpack_objects"
    stream = True


# ---------------------------------------------------------------- construction, format cache

@contract
class Compile(Contract):
    prop = "C01"
    name = "compile_struct"
    functions = ("javatools.pack:compile_struct",)
    summaries = {}
    must_cover = ("cached", "new")

    def inputs(self, w):
        fmt = w.choice("fmt", FORMATS)
        own = w.bool("own")
        have = [f for f in FORMATS[:2] + FORMATS[-1:] if w.bool("have" + f)]
        return (fmt, own, have)

    def run(self, L, inp):
        fmt, own, have = inp
        if own:
            cache = {}
            for f in have:
                cache[f] = struct.Struct(f)
            before = cache.get(fmt)
            s = L.pack.compile_struct(fmt, cache)
            keep = before is None or s is before
            return (s.format, s.size, keep, cache[fmt] is s)
        for f in have:
            L.pack.compile_struct(f)
        s = L.pack.compile_struct(fmt)
        return (s.format, s.size, True, L.pack.compile_struct(fmt) is s)

    def spec(self, inp):
        cover("cached" if inp[0] in inp[2] else "new")
        return (inp[0], fmt_size(inp[0]), True, True)


@contract
class Open(Contract):
    prop = "C01"
    name = "unpack"
    functions = ("javatools.pack:unpack", "javatools.pack:Unpacker.__enter__", "javatools.pack:Unpacker.__exit__")
    must_cover = ("bytes", "stream", "other")

    def inputs(self, w):
        return (w.choice("kind", ("bytes", "memoryview", "stream", "other")), w.bytes("data"))

    def run(self, L, inp):
        kind, data = inp
        if kind == "memoryview":
            src = memoryview(data)
        elif kind == "stream":
            src = Stream(data, 0)
        elif kind == "other":
            src = 5
        else:
            src = data
        with L.pack.unpack(src) as u:
            r = u.unpack(">H")
        return (type(u).__name__, r, u.data is None)

    def spec(self, inp):
        kind, data = inp
        if kind == "other":
            cover("other")
            raise Raises("TypeError")
        cover("stream" if kind == "stream" else "bytes")
        if len(data) < 2:
            raise Raises("UnpackException", bytes_wanted=2, bytes_present=len(data))
        return ("StreamUnpacker" if kind == "stream" else "BufferUnpacker", (data[0] * 256 + data[1],), True)
