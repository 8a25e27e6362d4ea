"""C04: class files decode into exactly the structure their bytes describe"""
import io, os, random, struct, tempfile
from pv.api import *

MODULES = ("javatools", "javatools.pack")

MAGIC = (0xCA, 0xFE, 0xBA, 0xBE)


def u2(b, o):
    return b[o] * 256 + b[o + 1]


def u4(b, o):
    return u2(b, o) * 65536 + u2(b, o + 2)


def name_of(ref):
    return abstract("name", (ref,), "str")


# ---------------------------------------------------------------- attributes

def attribute_cursor(data, off):
    """where the k-th attribute of a table at off begins, in well-formed data"""
    def step(k, st):
        o = st["off"]
        if o + 6 <= len(data):
            return {"off": o + 6 + u4(data, o + 2)}
        return {"off": o + 6}
    return Rec("off", {"off": "int"}, {"off": off + 2}, step, facts=lambda k, st: st["off"] >= off + 2 + 6 * k)


@contract
class Attributes(Contract):
    """a table of any number of attributes of any size, anywhere in any data"""
    prop = "C04"
    name = "attribute tables"
    functions = ("javatools:JavaAttributes.unpack",)
    concrete = False
    must_cover = ("ok", "refused")

    def inputs(self, w):
        data = w.bytes("data", hi=None)
        off = w.nat("off", len(data))
        return (data, off, attribute_cursor(data, off))

    def callee(self, L, inp):
        return {"javatools:JavaConstantPool.deref_const": lambda self, i: name_of(i)}

    def forms(self, inp):
        return {"offset": lambda i, init: inp[2].at(i)["off"]}

    def run(self, L, inp):
        log = table(0, None, list)

        class Table(L.jt.JavaAttributes):
            def __setitem__(self, k, v):
                log.append((k, v))
        t = Table(L.jt.JavaConstantPool())
        up = L.pack.BufferUnpacker(inp[0], inp[1])
        try:
            t.unpack(up)
        except L.pack.UnpackException:
            return ("refused",)
        return ("ok", tuple(log), up.offset)

    def spec(self, inp):
        data, off, cur = inp
        if len(data) - off < 2:
            cover("refused")
            return ("refused",)
        n = u2(data, off)

        def bad(k):
            o = cur.at(k)["off"]
            return o + 6 > len(data) or o + 6 + u4(data, o + 2) > len(data)
        if exists(n, bad):
            cover("refused")
            return ("refused",)
        cover("ok")

        def one(k):
            o = cur.at(k)["off"]
            return (name_of(u2(data, o)), data[o + 6:o + 6 + u4(data, o + 2)])
        return ("ok", table(n, one), cur.at(n)["off"])


# ---------------------------------------------------------------- members, code, handlers

def after_attributes(off):
    """where the attribute table at off ends"""
    n = abstract("attributes end", (off,), "int")
    return n


def unpack_attributes(L, marks):
    def f(self, unpacker):
        # the contract above: the table at this place is taken, or refused
        o = unpacker.offset
        marks.append((self, o))
        if abstract("attributes refused", (o,), "bool"):
            raise L.pack.UnpackException(None, 6, 0)
        e = after_attributes(o)
        assume(e >= o + 2)
        unpacker.offset = e
    return f


@contract
class Member(Contract):
    """a field or method anywhere in any data"""
    prop = "C04"
    name = "members"
    functions = ("javatools:JavaMemberInfo.unpack", "javatools:JavaMemberInfo.__init__")
    concrete = False
    must_cover = ("ok", "refused")

    def inputs(self, w):
        data = w.bytes("data", hi=None)
        return (data, w.nat("off", len(data)), w.bool("method"))

    def callee(self, L, inp):
        self.marks = []
        return {"javatools:JavaAttributes.unpack": unpack_attributes(L, self.marks)}

    def run(self, L, inp):
        pool = L.jt.JavaConstantPool()
        m = L.jt.JavaMemberInfo(pool, is_method=inp[2])
        up = L.pack.BufferUnpacker(inp[0], inp[1])
        try:
            m.unpack(up)
        except L.pack.UnpackException:
            return ("refused",)
        ensure(len(self.marks) == 1 and self.marks[0][0] is m.attribs and m.attribs.cpool is pool, "its attributes are its own")
        return ("ok", m.access_flags, m.name_ref, m.descriptor_ref, self.marks[0][1], up.offset, bool(m.is_method), m.cpool is pool)

    def spec(self, inp):
        data, o, method = inp
        if o + 6 > len(data) or abstract("attributes refused", (o + 6,), "bool"):
            cover("refused")
            return ("refused",)
        cover("ok")
        return ("ok", u2(data, o), u2(data, o + 2), u2(data, o + 4), o + 6, after_attributes(o + 6), bool(method), True)


@contract
class Code(Contract):
    """a code block of any length with any number of handlers, anywhere in any data"""
    prop = "C04"
    name = "code blocks"
    functions = ("javatools:JavaCodeInfo.unpack", "javatools:JavaCodeInfo.__init__", "javatools:JavaExceptionInfo.unpack",
                 "javatools:JavaExceptionInfo.__init__", "javatools:JavaExceptionInfo.info", "javatools.pack:Unpacker.unpack_objects")
    concrete = False
    must_cover = ("ok", "refused")

    def inputs(self, w):
        data = w.bytes("data", hi=None)
        return (data, w.nat("off", len(data)))

    def callee(self, L, inp):
        self.marks = []
        return {"javatools:JavaAttributes.unpack": unpack_attributes(L, self.marks)}

    def start(self, inp):
        return inp[1] + 8 + u4(inp[0], inp[1] + 4) + 2

    def forms(self, inp):
        return {"offset": lambda i, init: self.start(inp) + 8 * i}

    def run(self, L, inp):
        pool = L.jt.JavaConstantPool()
        c = L.jt.JavaCodeInfo(pool)
        up = L.pack.BufferUnpacker(inp[0], inp[1])
        try:
            c.unpack(up)
        except L.pack.UnpackException:
            return ("refused",)
        ensure(len(self.marks) == 1 and self.marks[0][0] is c.attribs and c.attribs.cpool is pool, "its attributes are its own")
        rows = tuple((e.start_pc, e.end_pc, e.handler_pc, e.catch_type_ref, e.cpool is pool) for e in c.exceptions)
        return ("ok", c.max_stack, c.max_locals, c.code, rows, self.marks[0][1], up.offset)

    def spec(self, inp):
        data, o = inp
        if o + 8 > len(data) or o + 8 + u4(data, o + 4) + 2 > len(data):
            cover("refused")
            return ("refused",)
        p = self.start(inp)
        n = u2(data, p - 2)
        if p + 8 * n > len(data) or abstract("attributes refused", (p + 8 * n,), "bool"):
            cover("refused")
            return ("refused",)
        cover("ok")
        rows = table(n, lambda k: (u2(data, p + 8 * k), u2(data, p + 8 * k + 2), u2(data, p + 8 * k + 4), u2(data, p + 8 * k + 6), True))
        return ("ok", u2(data, o), u2(data, o + 2), data[o + 8:p - 2], rows, p + 8 * n, after_attributes(p + 8 * n))


@contract
class GetCode(Contract):
    """a method with or without code"""
    prop = "C04"
    name = "code of a method"
    functions = ("javatools:JavaMemberInfo.get_code", "javatools:JavaMemberInfo.get_attribute")
    concrete = False

    def inputs(self, w):
        return (w.bool("present"), w.bytes("content"))

    def callee(self, L, inp):
        def unpack(self, unpacker):
            # the contract above
            ensure(unpacker.offset == 0, "from the beginning of the attribute")
            self.code = unpacker.data
            self.max_stack = "filled"
        return {"javatools:JavaCodeInfo.unpack": unpack}

    def run(self, L, inp):
        pool = L.jt.JavaConstantPool()
        m = L.jt.JavaMemberInfo(pool, is_method=True)
        m.attribs["Other"] = b"abc"
        if inp[0]:
            m.attribs["Code"] = inp[1]
        c = m.get_code()
        if c is None:
            return None
        return (c.code, c.max_stack, c.cpool is pool)

    def spec(self, inp):
        return (inp[1], "filled", True) if inp[0] else None


@contract
class InnerClasses(Contract):
    """a table of any number of inner classes"""
    prop = "C04"
    name = "inner classes"
    functions = ("javatools:JavaClassInfo.get_innerclasses", "javatools:JavaInnerClassInfo.unpack", "javatools:JavaInnerClassInfo.__init__")
    concrete = False
    must_cover = ("absent", "present", "refused")

    def inputs(self, w):
        return (w.bool("present"), w.bytes("content"))

    def forms(self, inp):
        return {"offset": lambda i, init: 2 + 8 * i}

    def run(self, L, inp):
        ci = L.jt.JavaClassInfo()
        if inp[0]:
            ci.attribs["InnerClasses"] = inp[1]
        pool = ci.cpool
        return tuple((x.inner_info_ref, x.outer_info_ref, x.name_ref, x.access_flags, x.cpool is pool) for x in ci.get_innerclasses())

    def spec(self, inp):
        present, b = inp
        if not present:
            cover("absent")
            return ()
        if len(b) < 2:
            cover("refused")
            raise Raises("UnpackException")
        n = u2(b, 0)
        if len(b) < 2 + 8 * n:
            cover("refused")
            raise Raises("UnpackException")
        cover("present")
        return table(n, lambda k: (u2(b, 2 + 8 * k), u2(b, 4 + 8 * k), u2(b, 6 + 8 * k), u2(b, 8 + 8 * k), True))


# ---------------------------------------------------------------- the class

GIVEN = {"bytes": b"\xca\xfe\xba\xbe", "characters": "\xca\xfe\xba\xbe", "numbers": MAGIC, "list": list(MAGIC),
         "other bytes": b"\xca\xfe\xd0\x0d", "other characters": "PK\x03\x04", "other numbers": (0xCA, 0xFE, 0xBA, 0xBF), "none at all": b"",
         "no numbers": (), "short": b"\xca\xfe", "long": b"\xca\xfe\xba\xbe\x00"}
GOOD = ("bytes", "characters", "numbers", "list")


def member_end(o):
    return o + 8 + max(abstract("member size", (o,), "int"), 0)


def member_cursor(name, start):
    return Rec(name, {"off": "int"}, {"off": start}, lambda k, st: {"off": member_end(st["off"])}, facts=lambda k, st: st["off"] >= start)


@contract
class ClassFile(Contract):
    """any data, with and without a magic read before; the pool (C02), the members and the attributes by their contracts"""
    prop = "C04"
    name = "classes"
    given = None
    functions = ("javatools:unpack_class", "javatools:JavaClassInfo.unpack", "javatools:JavaClassInfo.__init__", "javatools.pack:Unpacker.unpack_objects",
                 "javatools.pack:BufferUnpacker.unpack")
    concrete = False
    must_cover = ("ok", "refused", "other magic", "pool refused", "member refused")

    def inputs(self, w):
        data = w.bytes("data", hi=None)
        given = self.given
        at = 4 if given is None else 0
        pool_end = w.nat("pool end", None)
        # how many interfaces and fields there are; the pool's end is the least they are named with
        ni, nf = w.nat("interfaces", 65535), w.nat("fields", 65535)
        f = pool_end + 8 + 2 * ni
        fields = member_cursor("field", f + 2)
        m = fields.at(nf)["off"]
        return {"data": data, "given": given, "at": at, "pool end": pool_end, "fields": fields, "ni": ni, "nf": nf, "f": f, "m": m,
                "methods": member_cursor("method", m + 2)}

    def callee(self, L, inp):
        self.marks = marks = []

        def pool(self, unpacker):
            marks.append(("pool", self, unpacker.offset))
            if abstract("pool refused", (), "bool"):
                raise L.pack.UnpackException(None, 1, 0)
            p = inp["pool end"]
            assume(p >= unpacker.offset + 2)
            assume(p <= len(inp["data"]))
            unpacker.offset = p
            # the numbers, wherever the data has them
            data, f = inp["data"], inp["f"]
            if p + 8 <= len(data):
                assume(inp["ni"] == u2(data, p + 6))
                if f + 2 <= len(data):
                    assume(inp["nf"] == u2(data, f))

        def member(self, unpacker):
            o = unpacker.offset
            if abstract("member refused", (o,), "bool"):
                raise L.pack.UnpackException(None, 6, 0)
            e = member_end(o)
            assume(e <= len(inp["data"]))
            self.access_flags = o
            unpacker.offset = e

        def attributes(self, unpacker):
            marks.append(("attributes", self, unpacker.offset))
            if abstract("attributes refused", (unpacker.offset,), "bool"):
                raise L.pack.UnpackException(None, 6, 0)
        return {"javatools:JavaConstantPool.unpack": pool, "javatools:JavaMemberInfo.unpack": member, "javatools:JavaAttributes.unpack": attributes}

    def forms(self, inp):
        return {"offset": lambda i, init: inp["fields"].at(i)["off"], "offset/methods": lambda i, init: inp["methods"].at(i)["off"]}

    def run(self, L, inp):
        given = inp["given"]
        if given is None:
            ci = L.jt.unpack_class(inp["data"])
        else:
            ci = L.jt.unpack_class(inp["data"], GIVEN[given])
        pool = ci.cpool
        ensure([m[0] for m in self.marks] == ["pool", "attributes"], "the pool and the attributes are read once, in order")
        ensure(self.marks[0][1] is pool and self.marks[1][1] is ci.attribs and ci.attribs.cpool is pool, "they are its own")

        def members(ms):
            return tuple((m.access_flags, bool(m.is_method), m.cpool is pool) for m in ms)
        return (tuple(ci.magic), tuple(ci.version), self.marks[0][2], ci.access_flags, ci.this_ref, ci.super_ref, tuple(ci.interfaces),
                members(ci.fields), members(ci.methods), self.marks[1][2])

    def spec(self, inp):
        data, given, o = inp["data"], inp["given"], inp["at"]
        if given is None:
            if len(data) < 4:
                cover("refused")
                raise Raises("UnpackException")
            if not (data[0] == 0xCA and data[1] == 0xFE and data[2] == 0xBA and data[3] == 0xBE):
                cover("other magic")
                raise Raises("ClassUnpackException")
        elif given not in GOOD:
            cover("other magic")
            raise Raises("ClassUnpackException")
        if len(data) < o + 4:
            cover("refused")
            raise Raises("UnpackException")
        version = (u2(data, o + 2), u2(data, o))
        if abstract("pool refused", (), "bool"):
            cover("pool refused")
            raise Raises("UnpackException")
        p = inp["pool end"]
        if p + 8 > len(data):
            raise Raises("UnpackException")
        ni, f = inp["ni"], inp["f"]
        if f + 2 > len(data):
            raise Raises("UnpackException")
        nf, m, methods, fields = inp["nf"], inp["m"], inp["methods"], inp["fields"]
        if exists(nf, lambda k: abstract("member refused", (fields.at(k)["off"],), "bool")):
            cover("member refused")
            raise Raises("UnpackException")
        if m + 2 > len(data):
            raise Raises("UnpackException")
        nm = u2(data, m)
        if exists(nm, lambda k: abstract("member refused", (methods.at(k)["off"],), "bool")):
            raise Raises("UnpackException")
        a = methods.at(nm)["off"]
        if abstract("attributes refused", (a,), "bool"):
            raise Raises("UnpackException")
        cover("ok")
        return (MAGIC, version, o + 4, u2(data, p), u2(data, p + 2), u2(data, p + 4), table(ni, lambda k: u2(data, p + 8 + 2 * k)),
                table(nf, lambda k: (fields.at(k)["off"], False, True)), table(nm, lambda k: (methods.at(k)["off"], True, True)), a)


@contract
class MagicRead(ClassFile):
    """any data after the magic, when it was read before"""
    name = "classes, magic read"
    given = "numbers"
    must_cover = ("ok", "refused", "pool refused", "member refused")


@contract
class Magic(Contract):
    """any data after any of these"""
    prop = "C04"
    name = "magic given"
    functions = ("javatools:unpack_class", "javatools:JavaClassInfo.unpack")
    concrete = False
    must_cover = ("taken", "refused", "other magic")

    def inputs(self, w):
        return (w.bytes("data", hi=None), w.choice("magic", tuple(GIVEN)))

    def callee(self, L, inp):
        self.marks = marks = []

        def pool(self, unpacker):
            # what follows is the matter of the contract above
            marks.append(unpacker.offset)
            raise KeyError
        return {"javatools:JavaConstantPool.unpack": pool}

    def run(self, L, inp):
        try:
            L.jt.unpack_class(inp[0], GIVEN[inp[1]])
        except KeyError:
            return ("taken", tuple(self.marks))

    def spec(self, inp):
        data, given = inp
        if given not in GOOD:
            cover("other magic")
            raise Raises("ClassUnpackException")
        if len(data) < 4:
            cover("refused")
            raise Raises("UnpackException")
        cover("taken")
        return ("taken", (4,))


@contract
class IsClass(Contract):
    """any data"""
    prop = "C04"
    name = "is_class"
    functions = ("javatools:is_class",)
    must_cover = ("class", "other", "short")

    def inputs(self, w):
        def gen(r):
            b = bytes(MAGIC) + bytes(r.randrange(3))
            k = r.randrange(4)
            return r.choice((b, b[:k], b[:k] + b"\x00" + b[k + 1:], b))
        return (w.bytes("data", gen=gen),)

    def run(self, L, inp):
        return bool(L.jt.is_class(inp[0]))

    def spec(self, inp):
        d = inp[0]
        if len(d) < 4:
            cover("short")
            return False
        r = d[0] == 0xCA and d[1] == 0xFE and d[2] == 0xBA and d[3] == 0xBE
        cover("class" if r else "other")
        return bool(r)


# ---------------------------------------------------------------- real files

class Refused(Exception):
    pass


class Outside(Exception):
    """an attribute whose name is none: a file that is no class file, which may be refused or not"""


class Plain:
    """a reader of class files, from the class file format of the JVM specification"""
    def __init__(self, data):
        self.data, self.pos = data, 0

    def take(self, n):
        if self.pos + n > len(self.data):
            raise Refused("truncated")
        self.pos += n
        return self.data[self.pos - n:self.pos]

    def u(self, n):
        return int.from_bytes(self.take(n), "big")

    def us(self, k):
        return tuple(self.u(2) for _ in range(k))

    def attributes(self):
        out = {}
        for _ in range(self.u(2)):
            name = self.utf8(self.u(2))
            out[name] = self.take(self.u(4))
        return out

    def utf8(self, k):
        if k not in self.pool or self.pool[k][0] != 1:
            raise Outside()
        raw = self.pool[k][1]
        try:
            return raw.decode("utf8")
        except UnicodeDecodeError:
            raise Outside()

    def read_pool(self):
        self.pool, k, n = {}, 1, self.u(2)
        while k < n:
            tag = self.u(1)
            if tag == 1:
                self.pool[k] = (1, self.take(self.u(2)))
            elif tag in (3, 4):
                self.pool[k] = (tag, self.take(4))
            elif tag in (5, 6):
                self.pool[k] = (tag, self.take(8))
                k += 1
            elif tag in (7, 8, 16, 19, 20):
                self.pool[k] = (tag, self.take(2))
            elif tag == 15:
                self.pool[k] = (tag, self.take(3))
            elif tag in (9, 10, 11, 12, 13, 17, 18):
                self.pool[k] = (tag, self.take(4))
            else:
                raise Refused("unknown tag")
            k += 1

    def members(self):
        out = []
        for _ in range(self.u(2)):
            head = self.us(3)
            out.append(head + (self.attributes(),))
        return out

    def file(self, magic=False):
        if not magic and self.take(4) != bytes(MAGIC):
            raise Refused("magic")
        minor, major = self.us(2)
        self.read_pool()
        flags, this, sup = self.us(3)
        faces = self.us(self.u(2))
        fields, methods = self.members(), self.members()
        attrs = self.attributes()
        codes = [self.code(m[3]["Code"]) if "Code" in m[3] else None for m in methods]
        inner = None
        if "InnerClasses" in attrs:
            r = self.sub(attrs["InnerClasses"])
            try:
                inner = [r.us(4) for _ in range(r.u(2))]
            except Refused:
                inner = "refused"
        return ((major, minor), flags, this, sup, faces, fields, methods, attrs, codes, inner or [])

    def sub(self, data):
        r = Plain(data)
        r.pool = self.pool
        return r

    def code(self, data):
        r = self.sub(data)
        try:
            stack, locs = r.us(2)
            code = r.take(r.u(4))
            handlers = [r.us(4) for _ in range(r.u(2))]
            return (stack, locs, code, handlers, r.attributes())
        except Refused:
            return "refused"


def tried(f):
    try:
        return f()
    except Exception:
        return "refused"


def decoded(ci):
    def members(ms):
        return [(m.access_flags, m.name_ref, m.descriptor_ref, dict(m.attribs)) for m in ms]

    def code(m):
        c = m.get_code()
        if c is None:
            return None
        return (c.max_stack, c.max_locals, c.code, [(e.start_pc, e.end_pc, e.handler_pc, e.catch_type_ref) for e in c.exceptions], dict(c.attribs))

    def inner():
        return [(x.inner_info_ref, x.outer_info_ref, x.name_ref, x.access_flags) for x in ci.get_innerclasses()]
    return (tuple(ci.get_version()), ci.access_flags, ci.this_ref, ci.super_ref, tuple(ci.interfaces), members(ci.fields), members(ci.methods),
            dict(ci.attribs), [tried(lambda m=m: code(m)) for m in ci.methods], tried(inner))


class Slow:
    """a stream that can only be read"""
    def __init__(self, data):
        self.f = io.BytesIO(data)

    def read(self, n=-1):
        return self.f.read(n)


def draw(inp):
    from specs.javaclass import sample
    r = random.Random(inp["seed"])
    c = sample(r)
    if r.random() < 0.3:
        c.attrs.append(c.attr("InnerClasses", struct.pack(">H", 2) + bytes(r.randrange(4) for _ in range(16))))
    if r.random() < 0.04:
        # large numbers of everything
        k = r.randrange(4)
        if k == 0:
            c.ifaces += [c.cls("pkg/Face")] * 300
        elif k == 1:
            for j in range(300):
                c.field(j, "many", "I", [])
        elif k == 2:
            c.method(1, "long", "()V", [c.code(b"\x00" * 70000, handlers=[(j, j + 1, 2, 0) for j in range(260)])])
        else:
            c.attrs += [c.attr("Attribute%d" % j, b"x") for j in range(300)] + [c.attr("Large", bytes(70000))]
    data = c.bytes()
    how = inp["damage"]
    if how == "cut":
        data = data[:r.randrange(len(data))]
    elif how == "cut late":
        data = data[:len(data) - 1 - r.randrange(12)]
    elif how == "changed":
        for _ in range(r.choice((1, 2))):
            k = r.randrange(len(data))
            changed = data[:k] + bytes([r.choice((0, 1, 2, 255, data[k] ^ 1))]) + data[k + 1:]
            try:
                Plain(changed).file()
            except Outside:
                continue
            except Refused:
                pass
            data = changed
    elif how == "extended":
        data += bytes(r.randrange(1, 9))
    elif how == "other magic":
        k = r.randrange(4)
        data = data[:k] + bytes([data[k] ^ (1 << r.randrange(8))]) + data[k + 1:]
    elif how == "code":
        data = r.choice((b"", data[:4], data[:8], data[4:]))
    return r, data


@contract
class RealClasses(Contract):
    prop = "C04"
    name = "real class files"
    functions = ("javatools:unpack_class", "javatools:unpack_classfile", "javatools:is_class", "javatools:is_class_file", "javatools:JavaClassInfo.unpack")
    symbolic = False
    bound = "drawn class files, also cut short, changed in up to two bytes, or extended"
    cases_quick = 1500
    must_cover = ("decoded", "refused")

    def inputs(self, w):
        return {"seed": w.int("seed", 0, 2 ** 31), "damage": w.choice("damage", ("none", "none", "cut", "cut late", "changed", "extended", "other magic", "code")),
                "way": w.choice("way", ("bytes", "stream", "plain stream", "view", "file", "magic read")),
                "given": w.choice("given", tuple(GIVEN))}

    def run(self, L, inp):
        r, data = draw(inp)
        way = inp["way"]
        if way == "file":
            with tempfile.TemporaryDirectory() as tmp:
                fn = os.path.join(tmp, "x.class")
                with open(fn, "wb") as f:
                    f.write(data)
                ensure(bool(L.jt.is_class_file(fn)) == (data[:4] == bytes(MAGIC)), "is_class_file")
                return decoded(L.jt.unpack_classfile(fn))
        ensure(bool(L.jt.is_class(data)) == (data[:4] == bytes(MAGIC)), "is_class")
        if way == "magic read":
            return decoded(L.jt.unpack_class(data[4:], magic=GIVEN[inp["given"]]))
        return decoded(L.jt.unpack_class({"bytes": bytes, "stream": io.BytesIO, "plain stream": Slow, "view": memoryview}[way](data)))

    def spec(self, inp):
        r, data = draw(inp)
        try:
            if inp["way"] == "magic read":
                if inp["given"] not in GOOD:
                    raise Refused("magic")
                out = Plain(data[4:]).file(True)
            else:
                out = Plain(data).file()
        except Refused:
            cover("refused")
            raise Raises("Exception")
        cover("decoded")
        return out
