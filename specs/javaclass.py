"""a writer of class files, from the class file format of the JVM specification"""
import struct

TAGS = {"utf8": 1, "int": 3, "float": 4, "long": 5, "double": 6, "class": 7, "string": 8, "field": 9, "method": 10, "imethod": 11,
        "nat": 12, "handle": 15, "mtype": 16, "dynamic": 17, "indy": 18, "module": 19, "package": 20}


def u2(*v):
    return b"".join(struct.pack(">H", x) for x in v)


class ClassWriter:
    def __init__(self, name="pkg/Cls", sup="java/lang/Object", flags=0x21, version=(0, 52), pad=0):
        self.items, self.seen, self.size = [], {}, 1
        for k in range(pad):
            self.utf8("pad%d" % k)
        self.flags, self.version = flags, version
        self.this = self.cls(name)
        self.sup = self.cls(sup) if sup else 0
        self.ifaces, self.fields, self.methods, self.attrs = [], [], [], []

    # -- pool
    def add(self, kind, body, wide=False):
        key = (kind, body)
        if key not in self.seen:
            self.seen[key] = self.size
            self.items.append(bytes([TAGS[kind]]) + body)
            self.size += 2 if wide else 1
        return self.seen[key]

    def utf8(self, s):
        b = s if isinstance(s, bytes) else s.encode("utf8")
        return self.add("utf8", u2(len(b)) + b)

    def int_(self, v):
        return self.add("int", struct.pack(">i", v))

    def long_(self, v):
        return self.add("long", struct.pack(">q", v), True)

    def float_(self, bits):
        return self.add("float", struct.pack(">I", bits))

    def double_(self, bits):
        return self.add("double", struct.pack(">Q", bits), True)

    def cls(self, name):
        return self.add("class", u2(self.utf8(name)))

    def string(self, s):
        return self.add("string", u2(self.utf8(s)))

    def nat(self, name, desc):
        return self.add("nat", u2(self.utf8(name), self.utf8(desc)))

    def ref(self, kind, cls, name, desc):
        return self.add(kind, u2(self.cls(cls), self.nat(name, desc)))

    # -- parts
    def attr(self, name, body):
        return u2(self.utf8(name)) + struct.pack(">I", len(body)) + body

    def member(self, flags, name, desc, attrs=()):
        return u2(flags, self.utf8(name), self.utf8(desc), len(attrs)) + b"".join(attrs)

    def field(self, *a, **k):
        self.fields.append(self.member(*a, **k))

    def method(self, *a, **k):
        self.methods.append(self.member(*a, **k))

    def code(self, body, stack=4, locs=4, handlers=(), attrs=()):
        return self.attr("Code", u2(stack, locs) + struct.pack(">I", len(body)) + body + u2(len(handlers)) +
                         b"".join(u2(*h) for h in handlers) + u2(len(attrs)) + b"".join(attrs))

    def lines(self, rows):
        return self.attr("LineNumberTable", u2(len(rows)) + b"".join(u2(*r) for r in rows))

    def bytes(self):
        return b"\xca\xfe\xba\xbe" + u2(*self.version) + u2(self.size) + b"".join(self.items) + \
            u2(self.flags, self.this, self.sup, len(self.ifaces)) + u2(*self.ifaces) + \
            u2(len(self.fields)) + b"".join(self.fields) + u2(len(self.methods)) + b"".join(self.methods) + \
            u2(len(self.attrs)) + b"".join(self.attrs)


def sample(r, w=None):
    """a class drawn with the random source r, with every kind of member, constant and attribute"""
    c = ClassWriter(r.choice(["pkg/Cls", "A", "a/b/C$D"]), r.choice(["java/lang/Object", "pkg/Base"]),
                    r.choice([0x21, 0x601, 0x4031, 0x1]), (0, r.choice([45, 48, 52, 61])), pad=r.choice([0, 0, 3]))
    for k in range(r.choice([0, 1, 2])):
        c.ifaces.append(c.cls("pkg/I%d" % k))
    nan = r.choice([0x7ff8000000000000, 0x7ff0000000000000, 0x3ff0000000000000, 0x8000000000000000])
    fnan = r.choice([0x7fc00000, 0x3f800000, 0xff800000])
    consts = [("I", lambda: c.int_(7)), ("F", lambda: c.float_(fnan)), ("J", lambda: c.long_(-5)), ("D", lambda: c.double_(nan)),
              ("Ljava/lang/String;", lambda: c.string("text"))]
    for k in range(r.choice([0, 1, 3, 5])):
        d, v = r.choice(consts)
        attrs = [c.attr("ConstantValue", u2(v()))] if r.random() < 0.7 else []
        if r.random() < 0.3:
            attrs.append(c.attr("Deprecated", b""))
        if r.random() < 0.3:
            attrs.append(c.attr("RuntimeVisibleAnnotations", annotations(c, r)))
        c.field(r.choice([0x19, 0x1, 0x2]), "f%d" % r.choice([0, 1, 2]), d, attrs)
    for k in range(r.choice([0, 1, 3])):
        desc = r.choice(["()V", "(ILjava/lang/String;)I", "([[J)Lpkg/Cls;"])
        if r.random() < 0.3:
            c.method(0x401, "m%d" % k, desc, [])
            continue
        n, d = r.choice(consts)
        idx = d()
        body = b"\x03\x3b\x12" + bytes([idx if idx < 256 else 1]) + b"\x57" + \
            b"\xb2" + u2(c.ref("field", "pkg/Other", "x", "I")) + b"\x57\xb8" + u2(c.ref("method", "pkg/Other", "y", "()V")) + b"\xb1"
        if n in "JD":
            body = b"\x14" + u2(idx) + b"\x58\xb1"
        attrs = [c.lines([(0, 10), (2, 12), (5, 11)])] if r.random() < 0.7 else []
        handlers = [(0, 2, 4, c.cls("java/lang/Exception")), (0, 2, 4, 0)] if r.random() < 0.5 else []
        mattrs = [c.code(body, handlers=handlers, attrs=attrs)]
        if r.random() < 0.3:
            mattrs.append(c.attr("Exceptions", u2(1, c.cls("java/io/IOException"))))
        if r.random() < 0.3:
            mattrs.append(c.attr("Signature", u2(c.utf8("<T:Ljava/lang/Object;>()V"))))
        c.method(r.choice([0x1, 0x9, 0x1041]), r.choice(["m0", "m1", "<init>"]), desc, mattrs)
    if r.random() < 0.5:
        c.attrs.append(c.attr("SourceFile", u2(c.utf8("Cls.java"))))
    if r.random() < 0.3:
        c.attrs.append(c.attr("Signature", u2(c.utf8("Ljava/lang/Object;"))))
    if r.random() < 0.4:
        c.attrs.append(c.attr("RuntimeVisibleAnnotations", annotations(c, r)))
    if r.random() < 0.3:
        c.attrs.append(c.attr("InnerClasses", u2(1, c.cls("pkg/Cls$In"), c.cls("pkg/Cls"), c.utf8("In"), 0x9)))
    return c


def element(c, r, depth=0):
    k = r.choice("IDFJsec[@" if depth < 2 else "IDs")
    if k == "I":
        return b"I" + u2(c.int_(9))
    if k == "J":
        return b"J" + u2(c.long_(1))
    if k == "D":
        return b"D" + u2(c.double_(r.choice([0x7ff8000000000000, 0x4000000000000000])))
    if k == "F":
        return b"F" + u2(c.float_(r.choice([0x7fc00000, 0x40000000])))
    if k == "s":
        return b"s" + u2(c.utf8("val"))
    if k == "e":
        return b"e" + u2(c.utf8("Lpkg/E;"), c.utf8("ONE"))
    if k == "c":
        return b"c" + u2(c.utf8("Lpkg/K;"))
    if k == "[":
        n = r.choice([0, 1, 2])
        return b"[" + u2(n) + b"".join(element(c, r, depth + 1) for _ in range(n))
    return b"@" + annotation(c, r, depth + 1)


def annotation(c, r, depth=0):
    n = r.choice([0, 1, 2])
    return u2(c.utf8("Lpkg/Ann;"), n) + b"".join(u2(c.utf8("k%d" % j)) + element(c, r, depth) for j in range(n))


def annotations(c, r):
    n = r.choice([0, 1, 2])
    return u2(n) + b"".join(annotation(c, r) for _ in range(n))
