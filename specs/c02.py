"""C02: constant pool entries are decoded at the right index with the right value"""
import struct
from pv.api import *

MODULES = ("javatools", "javatools.pack")

# JVM specification, table 4.4-A: tag -> layout of what follows it
LAYOUT = {3: ">i", 4: ">f", 5: ">q", 6: ">d",
          7: ">H", 8: ">H", 9: ">HH", 10: ">HH", 11: ">HH", 12: ">HH", 13: ">HH",
          15: ">BH", 16: ">H", 17: ">HH", 18: ">HH", 19: ">H", 20: ">H"}
WIDE = (5, 6)


def u2(data, o):
    return data[o] * 256 + data[o + 1]


def known_tag(t):
    return t == 1 or (t >= 3 and t <= 13) or (t >= 15 and t <= 20)


def size(data, o):
    """bytes taken by the entry at o (tag byte in bounds); -1: unknown tag; past the end: truncated"""
    t = data[o]
    if t == 1:
        if o + 3 > len(data):
            return len(data) + 1
        return 3 + u2(data, o + 1)
    for tag in LAYOUT:
        if t == tag:
            return 1 + struct.Struct(LAYOUT[tag]).size
    return -1


def text(raw):
    try:
        return raw.decode("utf8")
    except UnicodeDecodeError:
        return raw.replace(b"\xC0\x80", b"\x00").decode("utf8", errors="ignore")


def entry(data, o):
    """(tag, value) of the well-formed entry at o"""
    t = data[o]
    if t == 1:
        return (1, text(data[o + 3:o + 3 + u2(data, o + 1)]))
    for tag in LAYOUT:
        if t == tag:
            f = LAYOUT[tag]
            v = struct.Struct(f).unpack_from(data, o + 1)
            return (tag, v if len(f) > 2 else v[0])


def pool_cursor(data, off):
    """where entry k+1 starts, and whether it is the empty second slot of a long or double"""
    def step(k, st):
        o, hack = st["off"], st["slot"]
        if hack:
            return {"off": o, "slot": False}
        if o >= len(data):
            return {"off": o + 1, "slot": False}
        n = a_size(data, o)
        if n < 1:
            return {"off": o + 1, "slot": False}
        return {"off": o + n, "slot": data[o] == 5 or data[o] == 6}
    return Rec("entry", {"off": "int", "slot": "bool"}, {"off": off + 2, "slot": False}, step,
               facts=lambda k, st: st["off"] >= off + 2)


def bad_entry(data, st):
    if st["slot"]:
        return False
    o = st["off"]
    if o >= len(data):
        return True
    n = a_size(data, o)
    return n < 1 or o + n > len(data)


TEXTS = (b"", b"abc", b"java/lang/Object", "h\u00e9\u6f22".encode("utf8"), b"a\xc0\x80b", b"\xed\xa0\x80\xed\xb0\x80", b"\xff\xfe", b"()V", b"x" * 300)


def gen_entry(r):
    t = r.choice([1, 1, 1] + list(range(3, 14)) + [15, 16, 17, 18, 19, 20] + [5, 6])
    if r.random() < 0.02:
        t = r.randrange(256)
    if t == 1:
        s = r.choice(TEXTS)
        return bytes([1]) + struct.pack(">H", len(s)) + s
    n = struct.Struct(LAYOUT.get(t, ">H")).size
    return bytes([t]) + bytes(r.choice([0, 0, 1, 255, 128, 127, r.randrange(256)]) for _ in range(n))


def gen_pool(r):
    """bytes of a mostly well-formed pool"""
    n = r.choice([0, 1, 2, 3, 4, 8])
    count, body = 1, b""
    for _ in range(n):
        e = gen_entry(r)
        body += e
        count += 2 if e[0] in WIDE else 1
    if r.random() < 0.15:
        count = max(0, count + r.choice([-1, 1, -2]))
    body += bytes(r.randrange(256) for _ in range(r.choice([0, 0, 3])))
    if r.random() < 0.1:
        body = body[:r.randrange(len(body) + 1)]
    return struct.pack(">H", count) + body


class Item(Contract):
    prop = "C02"
    stream = False
    must_cover = ("utf8", "number", "refs", "unknown", "short")

    def inputs(self, w):
        data = w.bytes("data", gen=gen_entry)
        off = w.nat("off", len(data))
        return (data, off)

    def run(self, L, inp):
        u = L.pack.BufferUnpacker(inp[0], inp[1])
        try:
            t, v = L.jt._unpack_const_item(u)
            return ("ok", t, v, u.offset)
        except L.pack.UnpackException:
            return ("refused",)
        except L.jt.UnknownConstantPoolTagException:
            return ("unknown",)

    def spec(self, inp):
        data, off = inp
        if off >= len(data):
            cover("short")
            return ("refused",)
        n = size(data, off)
        if n < 0:
            cover("unknown")
            return ("unknown",)
        if off + n > len(data):
            cover("short")
            return ("refused",)
        t, v = entry(data, off)
        cover("utf8" if t == 1 else "number" if t < 7 else "refs")
        return ("ok", t, v, off + n)


@contract
class ConstItem(Item):
    name = "_unpack_const_item"
    functions = ("javatools:_unpack_const_item",)
    cases_quick = 3000


def a_size(data, o):
    """size(data, o), as an unknown function when reasoning about the pool loop"""
    if symbolic():
        return abstract("entry_size", [o])
    return size(data, o)


def a_entry(data, o):
    if symbolic():
        return (data[o], abstract("entry_value", [o], "opaque"))
    return entry(data, o)


class PoolBase(Contract):
    prop = "C02"
    must_cover = ("ok", "refused")
    budget = 300

    def inputs(self, w):
        data = w.bytes("data", gen=gen_pool)
        off = w.nat("off", len(data)) if w.bool("inside") else 0
        return (data, off, pool_cursor(data, off))

    def callee(self, L, inp):
        """the contract of _unpack_const_item, proved above"""
        def item(u):
            o = u.offset
            if o >= len(u.data):
                raise L.pack.UnpackException(None, 1, 0)
            n = a_size(u.data, o)
            if n < 1:
                raise L.jt.UnknownConstantPoolTagException("unknown")
            if o + n > len(u.data):
                raise L.pack.UnpackException(None, n, 0)
            u.offset = o + n
            return a_entry(u.data, o)
        return {"javatools:_unpack_const_item": item}

    def run(self, L, inp):
        data, off, cur = inp
        u = L.pack.BufferUnpacker(data, off)
        pool = L.jt.JavaConstantPool()
        try:
            pool.unpack(u)
        except (L.pack.UnpackException, L.jt.UnknownConstantPoolTagException) as e:
            return ("refused",)
        return ("ok", tuple(pool.consts), u.offset)

    def forms(self, inp):
        data, off, cur = inp
        return {"offset": lambda i, init: cur.at(i)["off"], "hackpass": lambda i, init: cur.at(i)["slot"]}

    def spec(self, inp):
        data, off, cur = inp
        if len(data) - off < 2:
            cover("refused")
            return ("refused",)
        n = u2(data, off) - 1
        if exists(n, lambda k: bad_entry(data, cur.at(k))):
            cover("refused")
            return ("refused",)
        cover("ok")

        def one(k):
            st = cur.at(k)
            if st["slot"]:
                return (None, None)
            return a_entry(data, st["off"])
        m = n if n >= 0 else 0
        return ("ok", ((None, None),) + table(n, one), cur.at(m)["off"])


@contract
class Pool(PoolBase):
    name = "JavaConstantPool.unpack"
    functions = ("javatools:JavaConstantPool.unpack", "javatools:JavaConstantPool.__init__")
    cases_quick = 2000
