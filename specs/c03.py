"""C03: constant references resolve to the constants they name, for every kind"""
from pv.api import *

MODULES = ("javatools", "javatools.pack")

SIMPLE = (1, 3, 4, 5, 6)
ONE = (7, 8, 16, 19, 20)
PAIR = (9, 10, 11, 12, 13)
INDIRECT = (15, 17, 18)          # first part is not a pool index
TAGS = SIMPLE + ONE + PAIR + INDIRECT
PRETTY = {1: "Utf8", 3: "int", 4: "float", 5: "long", 6: "double", 7: "class", 8: "String", 9: "Field", 10: "Method",
          11: "InterfaceMethod", 12: "NameAndType", 13: "ModuleId", 15: "MethodHandle", 16: "MethodType", 17: "Dynamic",
          18: "InvokeDynamic", 19: "Module", 20: "Package"}


class Bad(Exception):
    pass


def make_pool(L, consts):
    p = L.jt.JavaConstantPool()
    p.consts = consts
    return p


def draw_value(w, tag, ref):
    if tag is None:
        return None
    if tag == 1:
        return w.str("text")
    if tag in (3, 5):
        return w.int("number", -2 ** 31, 2 ** 31 - 1)
    if tag in (4, 6):
        return w.opaque("float") if w.sym else float(w.int("float", -5, 5)) / 2
    if tag in ONE:
        return ref("ref")
    if tag in PAIR:
        return (ref("ref"), ref("ref2"))
    return (w.int("aux", 0, 9), ref("ref"))


class OnPool(Contract):
    """an arbitrary pool; references are arbitrary, recursive resolution is assumed to meet its contract"""
    prop = "C03"
    kinds = (None,) + TAGS

    def inputs(self, w):
        def elem(w, k):
            tag = w.choice("tag", self.kinds)
            if k == 0:
                tag = None

            def ref(nm):
                v = w.int(nm, 0, 65535)
                if not w.sym:
                    # acyclic, mostly downwards
                    v = v % k if v < 60000 and k else v
                    w.rec[w.key(nm)] = v
                return v
            return (tag, draw_value(w, tag, ref))
        consts = w.seq("consts", elem, lo=1)
        index = w.nat("index", 65535)
        return (consts, index)

    def callee(self, L, inp):
        def deref(pool, index):
            if abstract("fails", [index], "bool"):
                raise IndexError("cannot be resolved")
            return abstract("resolved", [index], "str")
        return {"javatools:JavaConstantPool.deref_const": deref}


def resolve(consts, index):
    """spec: the value a constant stands for"""
    if index == 0 or index >= len(consts):
        raise Bad()
    t, v = consts[index]
    if t is None:
        raise Bad()
    return resolve_entry(consts, t, v)


def again(consts, index):
    """resolving a reference found inside an entry: the induction hypothesis when reasoning symbolically"""
    if symbolic():
        if abstract("fails", [index], "bool"):
            raise Bad()
        return abstract("resolved", [index], "str")
    return resolve(consts, index)


def resolve_entry(consts, t, v):
    if t in SIMPLE:
        return v
    if t in ONE:
        return again(consts, v)
    if t in PAIR:
        return (again(consts, v[0]), again(consts, v[1]))
    return (v[0], again(consts, v[1]))


@contract
class Deref(OnPool):
    name = "JavaConstantPool.deref_const"
    functions = ("javatools:JavaConstantPool.deref_const",)
    cases_quick = 4000
    must_cover = ("text", "one", "pair", "indirect", "raises IndexError", "raises UnknownConstantPoolTagException|IndexError")

    def run(self, L, inp):
        return make_pool(L, inp[0]).deref_const(inp[1])

    def spec(self, inp):
        consts, index = inp
        if index == 0:
            raise Raises("IndexError")
        if index >= len(consts):
            raise Raises("IndexError")
        t, v = consts[index]
        try:
            if t is None:
                raise Bad()
            r = resolve_entry(consts, t, v)
        except Bad:
            raise Raises("UnknownConstantPoolTagException|IndexError")
        cover("text" if t in SIMPLE else "one" if t in ONE else "pair" if t in PAIR else "indirect")
        return r


@contract
class GetConst(OnPool):
    name = "JavaConstantPool.get_const"
    functions = ("javatools:JavaConstantPool.get_const",)

    def run(self, L, inp):
        return make_pool(L, inp[0]).get_const(inp[1])

    def spec(self, inp):
        if inp[1] >= len(inp[0]):
            raise Raises("IndexError")
        return inp[0][inp[1]]


class Listing(OnPool):
    """every entry resolves (well-formed pool)"""
    def inputs(self, w):
        consts, _i = OnPool.inputs(self, w)
        if not w.sym:
            for k in range(1, len(consts)):
                if consts[k][0] is not None:
                    try:
                        resolve(consts, k)
                    except Bad:
                        w.require(False)
        return (consts, _i)

    def callee(self, L, inp):
        def deref(pool, index):
            return abstract("resolved", [index], "str")
        return {"javatools:JavaConstantPool.deref_const": deref}

    def value(self, consts, k):
        if symbolic():
            return abstract("resolved", [k], "str")
        return resolve(consts, k)


@contract
class Constants(Listing):
    name = "JavaConstantPool.constants"
    functions = ("javatools:JavaConstantPool.constants",)
    cases_quick = 1500

    def run(self, L, inp):
        return tuple(make_pool(L, inp[0]).constants())

    def spec(self, inp):
        consts = inp[0]

        def one(k):
            t = consts[k + 1][0]
            if t is None:
                return ()
            return ((k + 1, t, self.value(consts, k + 1)),)
        return flat(len(consts) - 1, one)


def raw_form(t, v):
    """spec of the one-level readable form: the kind, and the references as they stand"""
    if t == 1:
        return repr(v)[1:-1]
    if t == 4:
        return "%ff" % v
    if t == 5:
        return "%il" % v
    if t == 6:
        return "%fd" % v
    if t in (7, 8):
        return "#%i" % v
    if t in (9, 10, 11):
        return "#%i.#%i" % v
    if t == 12:
        return "#%i:#%i" % v
    if t == 13:
        return "#%i@#%i" % v
    if t in (15, 16, 17, 18):
        return repr(v)
    return v


@contract
class PrettyConst(OnPool):
    name = "_pretty_const_type_val"
    functions = ("javatools:_pretty_const_type_val", "javatools:JavaConstantPool.pretty_const")
    cases_quick = 2000

    def callee(self, L, inp):
        return {}

    def run(self, L, inp):
        t, v = make_pool(L, inp[0]).pretty_const(inp[1])
        return (t, v)

    def spec(self, inp):
        consts, index = inp
        if index >= len(consts):
            raise Raises("IndexError")
        t, v = consts[index]
        if t is None:
            return (None, None)
        return (PRETTY[t], raw_form(t, v))


@contract
class PrettyConstants(Listing):
    name = "JavaConstantPool.pretty_constants"
    functions = ("javatools:JavaConstantPool.pretty_constants",)
    cases_quick = 1000

    def callee(self, L, inp):
        """the contract of _pretty_const_type_val, proved above"""
        def form(t, v):
            return (PRETTY[t], raw_form(t, v))
        return {"javatools:_pretty_const_type_val": form}

    def run(self, L, inp):
        return tuple(make_pool(L, inp[0]).pretty_constants())

    def spec(self, inp):
        consts = inp[0]

        def one(k):
            t, v = consts[k + 1]
            if t is None:
                return ()
            return ((k + 1, PRETTY[t], raw_form(t, v)),)
        return flat(len(consts) - 1, one)


# ---------------------------------------------------------------- readable forms

def dotted(name):
    return name.replace("/", ".")


NAMES = ("java/lang/Object", "a/B", "C", "[Ljava/lang/Object;", "x")
FIELDS = (("I", "int"), ("[J", "long[]"), ("Ljava/lang/String;", "java.lang.String"), ("[[La/B;", "a.B[][]"), ("Z", "boolean"))
METHODS = (("()V", "()", "void"), ("(I)V", "(int)", "void"), ("(ILa/B;[J)La/B;", "(int,a.B,long[])", "a.B"), ("([[I)[Z", "(int[][])", "boolean[]"))


@contract
class PrettyDeref(Contract):
    """the readable form of a constant names what it resolves to; one constant of each kind over arbitrary names.
    Resolution, class and type rendering are used through their own contracts (here, C07)"""
    prop = "C03"
    name = "JavaConstantPool.pretty_deref_const"
    functions = ("javatools:JavaConstantPool.pretty_deref_const",)
    cases_quick = 2500

    def inputs(self, w):
        tag = w.choice("tag", (None,) + TAGS)
        cls, name, txt = w.choice("class", NAMES), w.choice("name", NAMES), w.choice("text", NAMES)
        if w.sym:
            cls, name, txt = w.str("class"), w.str("name"), w.str("text")
        ismeth = tag in (10, 11, 17, 18) or (tag == 12 and w.bool("method"))
        if w.sym:
            desc, a, b = w.str("descriptor"), w.str("type1"), w.str("type2")
        elif ismeth:
            desc, a, b = w.choice("md", METHODS)
        else:
            desc, a = w.choice("fd", FIELDS)
            b = None
        num = w.int("number", -2 ** 31, 2 ** 31 - 1)
        aux = w.int("aux", 0, 9)
        return (tag, cls, name, txt, ismeth, desc, a, b, num, aux)

    def pool(self, inp):
        tag, cls, name, txt, ismeth, desc, a, b, num, aux = inp
        c = [(None, None), (1, cls), (7, 1), (1, name), (1, desc), (12, (3, 4)), (1, txt)]
        if tag is None:
            v = None
        elif tag == 1:
            v = txt
        elif tag in SIMPLE:
            v = num
        elif tag in (7,):
            v = 1
        elif tag in (8, 19, 20):
            v = 6
        elif tag == 16:
            v = 4
        elif tag in (9, 10, 11):
            v = (2, 5)
        elif tag == 12:
            v = (3, 4)
        elif tag == 13:
            v = (3, 6)
        elif tag == 15:
            v = (aux, 5)
        else:
            v = (aux, 5)
        return c + [(tag, v)]

    def callee(self, L, inp):
        tag, cls, name, txt, ismeth, desc, a, b, num, aux = inp
        return {"javatools:_pretty_class": lambda s: abstract("dotted", [s], "str"),
                "javatools:_pretty_type": lambda s, o=0: abstract("readable", [s], "str"),
                "javatools:_pretty_typeseq": lambda s: (a, b) if ismeth else (a,)}

    def run(self, L, inp):
        return str(make_pool(L, self.pool(inp)).pretty_deref_const(7))

    def spec(self, inp):
        tag, cls, name, txt, ismeth, desc, a, b, num, aux = inp
        dot = dotted
        if symbolic():
            def dot(s):
                return abstract("dotted", [s], "str")
        if tag is None:
            return ""
        if tag in (1, 8):
            return txt
        if tag in SIMPLE:
            return str(num)
        if tag == 7:
            return dot(cls)
        if tag == 9:
            return dot(cls) + "." + name + ":" + (abstract("readable", [desc], "str") if symbolic() else a)
        if tag in (10, 11):
            return dot(cls) + "." + name + a + ":" + b
        if tag == 12:
            return name + ":" + (a + b if ismeth else a)
        if tag == 13:
            return name + "@" + txt
        if tag == 15:
            return "MethodHandle %r %r" % (aux, (name, desc))
        if tag == 16:
            return "MethodType %s" % desc
        if tag in (17, 18):
            return "%s %r %r" % ("Dynamic" if tag == 17 else "InvokeDynamic", aux, (name, desc))
        return "%s %s" % ("Module" if tag == 19 else "Package", txt)
