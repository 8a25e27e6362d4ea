"""C07: type descriptors split and render losslessly"""
from pv.api import *

MODULES = ("javatools", "javatools.pack")

ASSUMPTIONS = ("a piece starting with '.' (found in corrupted files and tolerated by the code) is outside the lossless claim; the "
               "contracts state what is returned for it",)

PRIMS = "BCDFIJSVZ"
NAMES = {"V": "void", "Z": "boolean", "C": "char", "B": "byte", "S": "short", "I": "int", "J": "long", "D": "double", "F": "float"}


class Bad(Exception):
    pass


def piece(s):
    """(text, rest, tolerated) of the first complete type of s; an empty text: s is not complete"""
    b = 0
    while b < len(s) and s[b] == "[":
        b += 1
    if b == len(s):
        raise Bad()
    c = s[b]
    if c in PRIMS:
        return s[:b + 1], s[b + 1:], False
    if c in "L(":
        end = ";" if c == "L" else ")"
        if end not in s[b:]:
            return s[:b], s[b:], False
        n = b
        while s[n] != end:
            n += 1
        return s[:n + 1], s[n + 1:], False
    if c == ".":
        return s[:b] + s[b + 1:], "", True
    raise Bad()


GEN = ("B", "I", "J", "V", "Z", "[I", "[[D", "Ljava/lang/String;", "[Ljava/util/List;", "[[La;", "La$b;", "(I)", "(ILa;)", "[(I)", "L;",
       "[[[Lx/y/z/IJ;")
ODD = ("Lab", "(I", "[", ".x", "[.q", "Q", "[Lab", "TX;", "[[", "LIJ", ".", " ", "[Q", "[(", "é")


def gen_desc(r):
    s = "".join(r.choice(GEN) for _ in range(r.choice([0, 1, 1, 2, 3, 5])))
    if r.random() < .3:
        s += r.choice(ODD)
    if r.random() < .1:
        s += r.choice(GEN)
    return s


# ---------------------------------------------------------------- _next_argsig

def nxt(s):
    """the contract of _next_argsig at recursive calls and in the splitting loop: (raises, text, rest)"""
    if s == "" or abstract("refused", [s], "bool"):
        return (True, "", "")
    t = abstract("text", [s], "str")
    if abstract("tolerated", [s], "bool"):
        return (False, t, "")
    rest = abstract("rest", [s], "str")
    assume(t + rest == s)
    return (False, t, rest)


@contract
class Next(Contract):
    prop = "C07"
    name = "_next_argsig"
    functions = ("javatools:_next_argsig",)
    must_cover = ("primitive", "array", "class", "arguments", "incomplete", "tolerated", "raises Exception")
    cases_quick = 3000

    def inputs(self, w):
        return (w.str("s", gen=gen_desc),)

    def callee(self, L, inp):
        def rec(s):
            ensure(len(s) < len(inp[0]), "the recursion descends")
            bad, t, rest = nxt(s)
            if bad:
                raise L.jt.Unimplemented("refused")
            return (t, rest)
        return {"javatools:_next_argsig": rec}

    def run(self, L, inp):
        return L.jt._next_argsig(inp[0])

    def spec(self, inp):
        s = inp[0]
        if not symbolic():
            try:
                t, rest, tol = piece(s)
            except Bad:
                raise Raises("Exception")
            return (t, rest)
        if s == "":
            raise Raises("Exception")
        c = s[0]
        if c == "[":
            bad, t, rest = nxt(s[1:])
            if bad:
                raise Raises("Exception")
            cover("array")
            return ("[" + t, rest)
        if c in PRIMS:
            cover("primitive")
            return (s[:1], s[1:])
        if c == "L" or c == "(":
            end = ";" if c == "L" else ")"
            n = s.find(end)
            if n < 0:
                cover("incomplete")
                return ("", s)
            cover("class" if c == "L" else "arguments")
            return (s[:n + 1], s[n + 1:])
        if c == ".":
            cover("tolerated")
            return (s[1:], "")
        raise Raises("Exception")


# ---------------------------------------------------------------- splitting

def stuck(s):
    """no complete type can be split off s"""
    if s == "":
        return False
    bad, t, rest = nxt(s)
    return bad or (t == "" and rest == s)


def split_state(s0):
    """what is left after k pieces, what was split off, and whether that was by the book"""
    def step(k, st):
        s = st["rest"]
        if not symbolic():
            return st
        if s == "" or stuck(s):
            return {"rest": "", "done": st["done"], "plain": st["plain"] and s == ""}
        bad, t, rest = nxt(s)
        return {"rest": rest, "done": st["done"] + t, "plain": st["plain"] and not abstract("tolerated", [s], "bool")}
    return Rec("split", {"rest": "str", "done": "str", "plain": "bool"}, {"rest": s0, "done": "", "plain": True}, step,
               facts=lambda k, st: ((not st["plain"]) or st["done"] + st["rest"] == s0) and (st["rest"] == "" or len(st["rest"]) + k <= len(s0)))


@contract
class Split(Contract):
    prop = "C07"
    name = "_typeseq"
    functions = ("javatools:_typeseq", "javatools:_typeseq_iter")
    must_cover = ("split", "refused", "lossless")
    cases_quick = 3000

    def inputs(self, w):
        s = w.str("s", gen=gen_desc)
        return (s, split_state(s))

    def callee(self, L, inp):
        def one(s):
            bad, t, rest = nxt(s)
            if bad:
                raise L.jt.Unimplemented("refused")
            return (t, rest)
        return {"javatools:_next_argsig": one}

    def forms(self, inp):
        return {"s": lambda i, init: inp[1].at(i)["rest"]}

    def run(self, L, inp):
        return L.jt._typeseq(inp[0])

    def post(self, inp, got):
        s, cur = inp
        if not symbolic():
            want, rest = [], s
            try:
                while rest:
                    t, rest2, tol = piece(rest)
                    if t == "" and rest2 == rest:
                        raise Bad()
                    want.append(t)
                    rest = rest2
            except Bad:
                ensure(got[0] == "raise", "an incomplete descriptor is refused")
                return
            ensure_eq(got, ("ret", tuple(want)), "pieces")
            return

        if got[0] == "raise":
            cover("refused")
            for k in range(2):
                note(k)
            ensure(exists(len(s) + 1, lambda k: stuck(cur.at(k)["rest"])), "refused only where no type can be split off")
            return
        cover("split")
        out = got[1]
        n = len(out)
        ensure_eq(cur.at(n)["rest"], "", "everything is split")
        ensure_eq(out, table(n, lambda k: nxt(cur.at(k)["rest"])[1]), "pieces")
        ensure(forall(n, lambda k: cur.at(k)["rest"] != "" and not stuck(cur.at(k)["rest"])), "every piece is a complete type")
        if cur.at(n)["plain"]:
            cover("lossless")
            ensure_eq(cur.at(n)["done"], s, "the concatenation of the pieces")


# ---------------------------------------------------------------- readable forms

def readable(s):
    """spec: the readable form of one complete type (concrete)"""
    c = s[0]
    if c in NAMES:
        return NAMES[c]
    if c == "[":
        return readable(s[1:]) + "[]"
    if c == "L":
        return ".".join(s[1:-1].split("/"))
    if c == "T":
        return "generic " + s[1:]
    if c == "(":
        out, rest = [], s[1:-1]
        while rest:
            t, rest, tol = piece(rest)
            if not t:
                raise Bad()
            out.append(readable(t))
        return "(" + ",".join(out) + ")"
    raise Bad()


def shown(s):
    """the contract of _pretty_type, for other pieces (a readable form is never empty)"""
    r = abstract("readable", [s], "str")
    assume(r != "")
    return r


def pieces(s):
    """the contract of _typeseq (above) for a complete sequence of types"""
    n = abstract("pieces", [s], "int")
    assume(n >= 0)

    def one(k):
        t = abstract("piece", [s, k], "str")
        assume(len(t) <= len(s))
        return t
    return table(n, one)


@contract
class PrettyType(Contract):
    prop = "C07"
    name = "_pretty_type"
    functions = ("javatools:_pretty_type", "javatools:_pretty_class", "javatools:_pretty_typeseq")
    must_cover = ("primitive", "array", "class", "arguments", "generic", "raises Exception")
    cases_quick = 2500

    def inputs(self, w):
        if w.sym:
            return (w.choice("at", (0, 1)), w.str("pre"), w.str("s"))
        s = w.str("s", gen=gen_desc)
        if w.bool("piece"):
            # normally one complete type
            try:
                s = piece(s)[0]
            except Bad:
                pass
        return (w.choice("at", (0, 1)), w.str("pre", alpha="[", lo=1, hi=1), s)

    def callee(self, L, inp):
        def rec(s, offset=0):
            t = s[offset:]
            ensure(len(t) < len(inp[2]), "the recursion descends")
            return shown(t)
        return {"javatools:_pretty_type": rec, "javatools:_typeseq": pieces}

    def run(self, L, inp):
        at, pre, s = inp
        if at == 0:
            return L.jt._pretty_type(s)
        return L.jt._pretty_type(pre + s, len(pre))

    def spec(self, inp):
        at, pre, s = inp
        if not symbolic():
            try:
                return readable(s)
            except (Bad, IndexError):
                raise Raises("Exception")
        if s == "":
            raise Raises("Exception")
        c = s[0]
        for p in NAMES:
            if c == p:
                cover("primitive")
                return NAMES[p]
        if c == "L":
            cover("class")
            return s[1:-1].replace("/", ".")
        if c == "[":
            cover("array")
            return shown(s[1:]) + "[]"
        if c == "(":
            cover("arguments")
            ps = pieces(s[1:-1])
            return "(" + ",".join(table(len(ps), lambda k: shown(ps[k]))) + ")"
        if c == "T":
            cover("generic")
            return "generic " + s[1:]
        raise Raises("Exception")


def gen_args(r):
    return "".join(r.choice([g for g in GEN if "(" not in g]) for _ in range(r.choice([0, 1, 2, 4])))


def gen_ret(r):
    return r.choice([g for g in GEN if "(" not in g])


class Pool:
    def __init__(self, name, desc):
        self.name, self.desc = name, desc

    def deref_const(self, index):
        if index == 1:
            return self.name
        if index == 2:
            return self.desc
        raise IndexError(index)


def typeseq_facts(inp):
    """what the contract of _typeseq gives for a whole descriptor and for its argument part"""
    kind, flags, name, args, ret = inp[:5]

    def typeseq(s):
        if kind == "method" and s == "(" + args + ")" + ret:
            return ("(" + args + ")", ret)
        if kind == "method" and s == args:
            return pieces(args)
        if s == ret:
            return (ret,)
        ensure(False, "split of something else than the descriptor")
    return typeseq


def arg_pieces(args):
    if symbolic():
        return pieces(args)
    out, rest = [], args
    while rest:
        t, rest, tol = piece(rest)
        if not t:
            raise Bad()
        out.append(t)
    return tuple(out)


def well_formed(s, n=None):
    try:
        ps = arg_pieces(s)
    except Bad:
        return False
    return "".join(ps) == s and all(p and "(" not in p and ")" not in p for p in ps) and (n is None or len(ps) == n)


def show(s):
    return shown(s) if symbolic() else readable(s)


@contract
class Member(Contract):
    """a field with type ret, or a method with arguments args (free of ')' ) and result ret"""
    prop = "C07"
    name = "member types and names"
    functions = ("javatools:JavaMemberInfo.get_type_descriptor", "javatools:JavaMemberInfo.get_arg_type_descriptors",
                 "javatools:JavaMemberInfo.pretty_type", "javatools:JavaMemberInfo.pretty_arg_types",
                 "javatools:JavaMemberInfo.get_identifier", "javatools:JavaMemberInfo.pretty_identifier",
                 "javatools:JavaMemberInfo.pretty_descriptor")
    must_cover = ("method", "bridge", "field")
    cases_quick = 1500

    def inputs(self, w):
        kind = w.choice("kind", ("field", "method"))
        name = w.choice("special", ("<init>", None)) or w.str("name", lo=1)
        args = w.str("args", gen=gen_args)
        ret = w.str("ret", lo=1, gen=gen_ret)
        if not w.sym:
            w.require(well_formed(args) and well_formed(ret, 1) and readable(ret) != "")
        return (kind, w.choice("flags", (0, 1, 0x40, 0x41)), name, args, ret, w.choice("ask", tuple(range(7))))

    def callee(self, L, inp):
        def pretty(s, offset=0):
            return shown(s[offset:])
        return {"javatools:_pretty_type": pretty, "javatools:_typeseq": typeseq_facts(inp)}

    def run(self, L, inp):
        kind, flags, name, args, ret, ask = inp
        m = L.jt.JavaMemberInfo(Pool(name, "(" + args + ")" + ret if kind == "method" else ret), kind == "method")
        m.name_ref, m.descriptor_ref, m.access_flags = 1, 2, flags
        if ask == 0:
            return m.get_type_descriptor()
        if ask == 1:
            return tuple(m.get_arg_type_descriptors())
        if ask == 2:
            return m.pretty_type()
        if ask == 3:
            return tuple(m.pretty_arg_types())
        if ask == 4:
            return m.get_identifier()
        if ask == 5:
            return m.pretty_identifier()
        return m.pretty_descriptor()

    def spec(self, inp):
        kind, flags, name, args, ret, ask = inp
        method = kind == "method"
        bridge = method and flags & 0x40
        cover("bridge" if bridge else kind)
        ps = arg_pieces(args) if method else ()
        if ask == 0:
            return ret
        if ask == 1:
            return ps
        if ask == 2:
            return show(ret)
        pp = table(len(ps), lambda k: show(ps[k]))
        if ask == 3:
            return pp
        if ask == 4:
            if not method:
                return name
            r = name + "(" + ",".join(ps) + ")"
            return r + ":(" + args + ")" + ret if bridge else r
        if ask == 5:
            return (name + "(" + ",".join(pp) + ")" if method else name) + ":" + show(ret)
        words = []
        if flags & 1:
            words.append("public")
        if flags & 0x40 and not method:
            words.append("volatile")
        if name != "<init>":
            words.append(show(ret))
        words.append(name + "(" + ",".join(pp) + ")" if method else name)
        return " ".join(words)
