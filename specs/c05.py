"""C05: flags and attributes of classes and members are reported faithfully"""
import struct
from pv.api import *

MODULES = ("javatools", "javatools.pack")

ASSUMPTIONS = ("constant dereferencing is replaced by an arbitrary function of the index that refuses index 0 (C03 proves deref_const)",)

# JVM specification tables 4.1-B, 4.5-A, 4.6-A
CLASS_BITS = {"is_public": 0x0001, "is_final": 0x0010, "is_super": 0x0020, "is_interface": 0x0200, "is_abstract": 0x0400,
              "is_annotation": 0x2000, "is_enum": 0x4000}
MEMBER_BITS = {"is_public": 0x0001, "is_private": 0x0002, "is_protected": 0x0004, "is_static": 0x0008, "is_final": 0x0010,
               "is_synchronized": 0x0020, "is_native": 0x0100, "is_abstract": 0x0400, "is_strict": 0x0800, "is_volatile": 0x0040,
               "is_transient": 0x0080, "is_bridge": 0x0040, "is_varargs": 0x0080, "is_enum": 0x4000, "is_module": 0x8000}


def bit(flags, b):
    return (flags & b) != 0


class Pool:
    """an arbitrary constant pool: index -> value; method references (the second kind) are pairs"""
    def __init__(self, w, w2=None):
        self.w, self.pairs = w, w2

    def deref_const(self, index):
        if index == 0:
            raise IndexError("index zero is not a constant")
        if self.pairs is not None and index in self.pairs:
            return (self.w.fn("name", [index], "str"), self.w.fn("type", [index], "str"))
        return self.w.fn("const", [index], "str")


def const(w, index):
    if index == 0:
        raise Raises("Exception")
    return w.fn("const", [index], "str")


def u2(b, o):
    return b[o] * 256 + b[o + 1]


ATTRS = ("Deprecated", "Synthetic", "Signature", "SourceFile", "ConstantValue", "Exceptions", "InnerClasses", "EnclosingMethod",
         "SourceDebugExtension", "Module")


def class_info(L, w, attrs):
    ci = L.jt.JavaClassInfo()
    pool = Pool(w)
    ci.cpool = pool
    a = L.jt.JavaAttributes(pool)
    for k, v in attrs:
        a[k] = v
    ci.attribs = a
    return ci


def member_info(L, w, attrs, is_method=False):
    pool = Pool(w)
    m = L.jt.JavaMemberInfo(pool, is_method)
    for k, v in attrs:
        m.attribs[k] = v
    return m


class Flag(Contract):
    prop = "C05"
    bits = {}

    def inputs(self, w):
        return (w.choice("question", tuple(sorted(self.bits))), w.word("flags"), w)

    def make(self, L, w):
        raise NotImplementedError

    def run(self, L, inp):
        q, flags, w = inp
        o = self.make(L, w)
        o.access_flags = flags
        if getattr(o, q)():
            return True
        return False

    def spec(self, inp):
        q, flags, w = inp
        r = bit(flags, self.bits[q])
        cover("yes" if r else "no")
        return bool(r)

    must_cover = ("yes", "no")


@contract
class ClassFlags(Flag):
    name = "class flag questions"
    functions = tuple("javatools:JavaClassInfo." + q for q in sorted(CLASS_BITS))
    bits = CLASS_BITS
    cases_quick = 400

    def make(self, L, w):
        return class_info(L, w, ())


@contract
class MemberFlags(Flag):
    name = "member flag questions"
    functions = tuple("javatools:JavaMemberInfo." + q for q in sorted(MEMBER_BITS))
    bits = MEMBER_BITS
    cases_quick = 600

    def make(self, L, w):
        return member_info(L, w, ())


@contract
class Markers(Contract):
    """deprecated and synthetic, with the attribute content arbitrary (normally empty)"""
    prop = "C05"
    name = "is_deprecated, is_synthetic"
    functions = ("javatools:JavaClassInfo.is_deprecated", "javatools:JavaMemberInfo.is_deprecated", "javatools:JavaMemberInfo.is_synthetic",
                 "javatools:JavaClassInfo.get_attribute", "javatools:JavaMemberInfo.get_attribute")
    must_cover = ("yes", "no")

    def inputs(self, w):
        return (w.choice("question", ("class", "deprecated", "synthetic")), w.bool("dep"), w.bool("syn"), w.bytes("content"), w.word("flags"), w)

    def run(self, L, inp):
        q, dep, syn, content, flags, w = inp
        attrs = ((("Deprecated", content),) if dep else ()) + ((("Synthetic", content),) if syn else ())
        if q == "class":
            o = class_info(L, w, attrs)
        else:
            o = member_info(L, w, attrs)
        o.access_flags = flags
        if o.is_synthetic() if q == "synthetic" else o.is_deprecated():
            return True
        return False

    def spec(self, inp):
        q, dep, syn, content, flags, w = inp
        r = (syn or bit(flags, 0x1000)) if q == "synthetic" else dep
        cover("yes" if r else "no")
        return True if r else False


@contract
class ClassKeywords(Contract):
    prop = "C05"
    name = "JavaClassInfo.pretty_access_flags"
    functions = ("javatools:JavaClassInfo.pretty_access_flags", "javatools:JavaClassInfo._pretty_access_flags_gen")
    cases_quick = 600
    must_cover = ("annotation", "interface", "class")

    def inputs(self, w):
        return (w.word("flags"), w)

    def run(self, L, inp):
        o = class_info(L, inp[1], ())
        o.access_flags = inp[0]
        return tuple(sorted(o.pretty_access_flags()))

    def spec(self, inp):
        f = inp[0]
        r = []
        for kw, b in (("public", 1), ("final", 16), ("abstract", 0x400), ("enum", 0x4000)):
            if bit(f, b):
                r.append(kw)
        if bit(f, 0x200):
            if bit(f, 0x2000):
                cover("annotation")
                r.append("@interface")
            else:
                cover("interface")
                r.append("interface")
        else:
            cover("class")
        return tuple(sorted(r))


COMMON_KW = (("public", 1), ("private", 2), ("protected", 4), ("static", 8), ("final", 16), ("strict", 0x800), ("native", 0x100),
             ("abstract", 0x400), ("enum", 0x4000), ("module", 0x8000))


class MemberKeywords(Contract):
    prop = "C05"
    functions = ("javatools:JavaMemberInfo.pretty_access_flags", "javatools:JavaMemberInfo._pretty_access_flags_gen")
    cases_quick = 400
    is_method = False
    maxpaths = 40000

    def inputs(self, w):
        return (w.word("flags"), w.choice("attr", (False, True)), w.choice("showall", (False, True)), w)

    def run(self, L, inp):
        f, attr, showall, w = inp
        o = member_info(L, w, (("Synthetic", b""),) if attr else (), self.is_method)
        o.access_flags = f
        return tuple(sorted(o.pretty_access_flags(showall) if showall else o.pretty_access_flags()))

    def spec(self, inp):
        f, attr, showall, w = inp
        r = [kw for kw, b in COMMON_KW if bit(f, b)]
        if showall and (attr or bit(f, 0x1000)):
            r.append("synthetic")
        if self.is_method:
            if bit(f, 0x20):
                r.append("synchronized")
            if showall and bit(f, 0x40):
                r.append("bridge")
            if showall and bit(f, 0x80):
                r.append("varargs")
        else:
            if bit(f, 0x80):
                r.append("transient")
            if bit(f, 0x40):
                r.append("volatile")
        return tuple(sorted(r))


@contract
class FieldKeywords(MemberKeywords):
    name = "field pretty_access_flags"


@contract
class MethodKeywords(MemberKeywords):
    name = "method pretty_access_flags"
    is_method = True


class Attr(Contract):
    """an attribute whose content starts with one pool index, absent or with any content"""
    prop = "C05"
    must_cover = ("absent", "present", "raises Exception")
    questions = ()

    def inputs(self, w):
        return (w.choice("question", self.questions), w.bool("present"), w.bytes("content", hi=None if w.sym else 12), w)

    def run(self, L, inp):
        (kind, getter, attr, mode), present, content, w = inp
        attrs = ((attr, content),) if present else ()
        o = class_info(L, w, attrs) if kind == "class" else member_info(L, w, attrs)
        return getattr(o, getter)()

    def spec(self, inp):
        (kind, getter, attr, mode), present, content, w = inp
        if not present:
            cover("absent")
            return None
        if len(content) < 2:
            raise Raises("Exception")
        cover("present")
        i = u2(content, 0)
        return i if mode == "index" else const(w, i)


@contract
class OneIndex(Attr):
    name = "single-index attributes"
    questions = (("class", "get_sourcefile", "SourceFile", "value"), ("class", "get_signature", "Signature", "value"),
                 ("member", "get_signature", "Signature", "value"), ("member", "get_constantvalue", "ConstantValue", "index"),
                 ("member", "deref_constantvalue", "ConstantValue", "value"), ("member", "get_module", "Module", "value"))
    functions = ("javatools:JavaClassInfo.get_sourcefile", "javatools:JavaClassInfo.get_signature", "javatools:JavaMemberInfo.get_signature",
                 "javatools:JavaMemberInfo.get_constantvalue", "javatools:JavaMemberInfo.deref_constantvalue",
                 "javatools:JavaMemberInfo.get_module")
    cases_quick = 600


def gen_exceptions(r):
    n = r.choice([0, 1, 2, 5])
    return struct.pack(">H", n + r.choice([0, 0, 0, 1])) + bytes(r.randrange(0, 3) for _ in range(2 * n))


@contract
class Exceptions(Contract):
    prop = "C05"
    name = "JavaMemberInfo.get_exceptions"
    functions = ("javatools:JavaMemberInfo.get_exceptions",)
    must_cover = ("absent", "present", "raises Exception")
    cases_quick = 600

    def inputs(self, w):
        return (w.bool("present"), w.bytes("content", gen=gen_exceptions), w)

    def run(self, L, inp):
        present, content, w = inp
        return member_info(L, w, (("Exceptions", content),) if present else (), True).get_exceptions()

    def spec(self, inp):
        present, content, w = inp
        if not present:
            cover("absent")
            return ()
        if len(content) < 2:
            raise Raises("Exception")
        n = u2(content, 0)
        if len(content) < 2 + 2 * n:
            raise Raises("Exception")
        if exists(n, lambda k: u2(content, 2 + 2 * k) == 0):
            raise Raises("Exception")
        cover("present")
        return table(n, lambda k: w.fn("const", [u2(content, 2 + 2 * k)], "str"))


def gen_inner(r):
    n = r.choice([0, 1, 2])
    return struct.pack(">H", n + r.choice([0, 0, 0, 1])) + bytes(r.randrange(0, 3) for _ in range(8 * n))


@contract
class InnerClasses(Contract):
    prop = "C05"
    name = "JavaClassInfo.get_innerclasses"
    functions = ("javatools:JavaClassInfo.get_innerclasses", "javatools:JavaInnerClassInfo.__init__", "javatools:JavaInnerClassInfo.unpack",
                 "javatools:JavaInnerClassInfo.get_name")
    must_cover = ("absent", "present", "raises Exception")
    cases_quick = 600

    def inputs(self, w):
        return (w.bool("present"), w.bytes("content", gen=gen_inner), w)

    def run(self, L, inp):
        present, content, w = inp
        r = class_info(L, w, (("InnerClasses", content),) if present else ()).get_innerclasses()

        def shown(c):
            try:
                name = c.get_name()
            except IndexError:
                name = None
            return (c.inner_info_ref, c.outer_info_ref, c.name_ref, c.access_flags, name)
        return tuple([shown(c) for c in r])

    def spec(self, inp):
        present, content, w = inp
        if not present:
            cover("absent")
            return ()
        if len(content) < 2:
            raise Raises("Exception")
        n = u2(content, 0)
        if len(content) < 2 + 8 * n:
            raise Raises("Exception")
        cover("present")

        def one(k):
            o = 2 + 8 * k
            i = u2(content, o + 4)
            return (u2(content, o), u2(content, o + 2), i, u2(content, o + 6), None if i == 0 else w.fn("const", [i], "str"))
        return table(n, one)


@contract
class Enclosing(Contract):
    prop = "C05"
    name = "JavaClassInfo.get_enclosingmethod"
    functions = ("javatools:JavaClassInfo.get_enclosingmethod",)
    must_cover = ("absent", "class", "method", "neither", "raises Exception")
    cases_quick = 600

    def inputs(self, w):
        content = w.bytes("content", gen=lambda r: bytes(r.choice([0, 0, 1, 2]) for _ in range(r.choice([4, 4, 4, 3, 0]))))
        if len(content) >= 4:
            # a class constant is not a NameAndType
            w.require(u2(content, 2) == 0 or u2(content, 2) != u2(content, 0))
        return (w.bool("present"), content, w)

    def run(self, L, inp):
        present, content, w = inp
        ci = class_info(L, w, (("EnclosingMethod", content),) if present else ())
        # the second index names a NameAndType constant
        ci.cpool.pairs = (u2(content, 2),) if len(content) >= 4 and u2(content, 2) != u2(content, 0) else ()
        return ci.get_enclosingmethod()

    def spec(self, inp):
        present, content, w = inp
        if not present:
            cover("absent")
            return None
        if len(content) < 4:
            raise Raises("Exception")
        ci, mi = u2(content, 0), u2(content, 2)
        if ci == 0:
            cover("neither")
            return None
        c = w.fn("const", [ci], "str")
        if mi == 0:
            cover("class")
            return c
        cover("method")
        return c + "." + w.fn("name", [mi], "str") + w.fn("type", [mi], "str")


PLATFORMS = (("1.0.2", 45, 0, 3), ("1.1", 45, 4, 65535), ("1.2", 46, 0, 65535), ("1.3", 47, 0, 65535), ("1.4", 48, 0, 65535),
             ("1.5", 49, 0, 65535), ("1.6", 50, 0, 65535), ("1.7", 51, 0, 65535), ("1.8", 52, 0, 65535))


@contract
class Platform(Contract):
    prop = "C05"
    name = "platform_from_version"
    functions = ("javatools:platform_from_version", "javatools:JavaClassInfo.get_platform", "javatools:JavaClassInfo.get_version")
    must_cover = ("known", "unknown")
    cases_quick = 600

    def inputs(self, w):
        return (w.u2("major") if w.sym or w.bool("any") else w.int("maj", 44, 54), w.u2("minor") if w.sym or w.bool("any2") else w.int("min", 0, 5), w)

    def run(self, L, inp):
        ci = class_info(L, inp[2], ())
        ci.version = (inp[0], inp[1])
        return (ci.get_version(), ci.get_platform(), L.jt.platform_from_version(inp[0], inp[1]))

    def spec(self, inp):
        major, minor, w = inp
        for name, maj, lo, hi in PLATFORMS:
            if major == maj and lo <= minor <= hi:
                cover("known")
                return ((major, minor), name, name)
        cover("unknown")
        return ((major, minor), None, None)


@contract
class References(Contract):
    """this, super and interface names"""
    prop = "C05"
    name = "get_this, get_super, get_interfaces"
    functions = ("javatools:JavaClassInfo.get_this", "javatools:JavaClassInfo.get_super", "javatools:JavaClassInfo.get_interfaces",
                 "javatools:JavaMemberInfo.get_name", "javatools:JavaMemberInfo.get_descriptor", "javatools:JavaClassInfo.deref_const",
                 "javatools:JavaMemberInfo.deref_const")
    must_cover = ("root", "derived")

    def inputs(self, w):
        return (w.int("this", 1, 65535 if w.sym else 6), w.int("super", 0, 65535 if w.sym else 6), w.seq("interfaces", lambda w, k: w.int("ref", 1, 65535 if w.sym else 6)), w)

    def run(self, L, inp):
        this, sup, ifs, w = inp
        ci = class_info(L, w, ())
        ci.this_ref, ci.super_ref, ci.interfaces = this, sup, ifs
        m = member_info(L, w, ())
        m.name_ref, m.descriptor_ref = this, ci.this_ref
        return (ci.get_this(), ci.get_super(), ci.get_interfaces(), m.get_name(), m.get_descriptor())

    def spec(self, inp):
        this, sup, ifs, w = inp
        cover("derived" if sup != 0 else "root")
        t = w.fn("const", [this], "str")
        return (t, w.fn("const", [sup], "str") if sup != 0 else "", table(len(ifs), lambda k: w.fn("const", [ifs[k]], "str")), t, t)
