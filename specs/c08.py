"""C08: line tables attribute every instruction to exactly one source line"""
import struct
from pv.api import *

MODULES = ("javatools", "javatools.pack", "javatools.opcodes", "javatools.classdiff")


class Pool:
    def deref_const(self, index):
        raise IndexError(index)


def u2(b, o):
    return b[o] * 256 + b[o + 1]


def code_info(L, attrs=()):
    ci = L.jt.JavaCodeInfo(Pool())
    for k, v in attrs:
        ci.attribs[k] = v
    return ci


def gen_table(width):
    def gen(r):
        n = r.choice([0, 1, 2, 5])
        return struct.pack(">H", n + r.choice([0, 0, 0, 1])) + bytes(r.choice([0, 0, 1, 7, 255]) for _ in range(2 * width * n))
    return gen


class Table(Contract):
    """a table attribute is decoded row by row"""
    prop = "C08"
    getter = attr = None
    width = 2
    must_cover = ("absent", "present", "raises Exception")
    cases_quick = 400

    def inputs(self, w):
        return (w.bool("present"), w.bytes("content", gen=gen_table(self.width)))

    def run(self, L, inp):
        ci = code_info(L, ((self.attr, inp[1]),) if inp[0] else ())
        a = getattr(ci, self.getter)()
        b = getattr(ci, self.getter)()
        return (tuple(a), tuple(b))

    def row(self, content, k):
        o = 2 + 2 * self.width * k
        return tuple([u2(content, o + 2 * j) for j in range(self.width)])

    def rows(self, inp):
        present, content = inp
        if not present:
            cover("absent")
            return ()
        if len(content) < 2:
            raise Raises("Exception")
        n = u2(content, 0)
        if len(content) < 2 + 2 * self.width * n:
            raise Raises("Exception")
        cover("present")
        return table(n, lambda k: self.row(content, k))

    def spec(self, inp):
        r = self.rows(inp)
        return (r, r)


@contract
class Lines(Table):
    name = "JavaCodeInfo.get_linenumbertable"
    functions = ("javatools:JavaCodeInfo.get_linenumbertable", "javatools:JavaCodeInfo.get_attribute")
    getter, attr = "get_linenumbertable", "LineNumberTable"


@contract
class Locals(Table):
    name = "JavaCodeInfo.get_localvariabletable"
    functions = ("javatools:JavaCodeInfo.get_localvariabletable",)
    getter, attr, width = "get_localvariabletable", "LocalVariableTable", 5


@contract
class LocalTypes(Table):
    name = "JavaCodeInfo.get_localvariabletypetable"
    functions = ("javatools:JavaCodeInfo.get_localvariabletypetable",)
    getter, attr, width = "get_localvariabletypetable", "LocalVariableTypeTable", 5


def lines(w):
    return w.seq("line", lambda w, k: (w.u2("offset"), w.u2("number")))


def with_lines(lnt):
    """the contract of get_linenumbertable (above)"""
    return {"javatools:JavaCodeInfo.get_linenumbertable": lambda ci: lnt}


def pack_table(lnt):
    return struct.pack(">H", len(lnt)) + b"".join(struct.pack(">HH", a, b) for a, b in lnt)


def lined(L, lnt):
    return code_info(L, () if symbolic() else (("LineNumberTable", pack_table(lnt)),))


@contract
class Relative(Contract):
    prop = "C08"
    name = "JavaCodeInfo.get_relativelinenumbertable"
    functions = ("javatools:JavaCodeInfo.get_relativelinenumbertable",)
    cases_quick = 400

    def inputs(self, w):
        return (lines(w),)

    def callee(self, L, inp):
        return with_lines(inp[0])

    def run(self, L, inp):
        return tuple(lined(L, inp[0]).get_relativelinenumbertable())

    def spec(self, inp):
        t = inp[0]
        if len(t) == 0:
            return ()
        first = t[0][1]
        return table(len(t), lambda k: (t[k][0], t[k][1] - first))


@contract
class Lookup(Contract):
    """m entries of an ascending table start at or before the offset"""
    prop = "C08"
    name = "JavaCodeInfo.get_line_for_offset"
    functions = ("javatools:JavaCodeInfo.get_line_for_offset",)
    must_cover = ("before", "exact", "inside")
    cases_quick = 2000

    def inputs(self, w):
        if w.sym:
            t = lines(w)
        else:
            # ascending
            rows, at = [], -1
            for k in range(w.int("n", 0, 5)):
                at += w.int("step%d" % k, 1, 3)
                rows.append((at, w.int("number%d" % k, 0, 9)))
            t = tuple(rows)
        o = w.nat("offset", None if w.sym else 14)
        n = len(t)
        m = w.int("m", 0, n) if w.sym else sum(1 for a, b in t if a <= o)
        assume_forall(n, lambda k: t[k][0] <= o if k < m else t[k][0] > o)
        assume_forall(n, lambda k: (not (k < m - 1)) or t[k][0] < o)
        return (t, o, m)

    def callee(self, L, inp):
        return with_lines(inp[0])

    def forms(self, inp):
        return {"prev_line": lambda i, init: 0 if i == 0 else inp[0][i - 1][1]}

    def run(self, L, inp):
        return lined(L, inp[0]).get_line_for_offset(inp[1])

    def spec(self, inp):
        t, o, m = inp
        if symbolic():
            note(m - 1)
            note(m)
        if m == 0:
            cover("before")
            return 0
        cover("exact" if t[m - 1][0] == o else "inside")
        return t[m - 1][1]


def groups_spec(code, line, n, start):
    """spec: the maximal runs of instructions on one line, as (line, first, end)"""
    def one(k):
        if k > 0 and line(k - 1) != line(k):
            return ((line(k - 1), start.at(k)["from"], k),)
        return ()
    return one


@contract
class Group(Contract):
    """the instructions (offset, opcode, operands) of a body, with any line for each offset"""
    prop = "C08"
    name = "JavaCodeInfo.iter_code_by_lines"
    functions = ("javatools:JavaCodeInfo.iter_code_by_lines",)
    must_cover = ("unnumbered", "numbered", "empty")
    cases_quick = 1500

    def inputs(self, w):
        self.w = w
        numbered = w.bool("numbered")
        first = w.u2("first")
        code = w.seq("code", lambda w, k: (w.u2("offset"), w.u1("op"), w.opaque("args")))
        if not w.sym:
            # one instruction per offset
            code = tuple((k, c[1], c[2]) for k, c in enumerate(code))

        def line(k):
            if symbolic():
                return abstract("line", [code[k][0]])
            return 10 + w.fn("line", [code[k][0]], "int")
        j = w.nat("j")
        n = len(code)

        def step(k, st):
            if symbolic():
                if k > 0 and line(k) != line(k - 1):
                    return {"from": k}
                return {"from": st["from"]}
            return {"from": k if k > 0 and line(k) != line(k - 1) else st["from"]}
        # every instruction j of the run before k is on the line of the run
        start = Rec("run", {"from": "int"}, {"from": 0}, step,
                    facts=lambda k, st: st["from"] >= 0 and st["from"] <= k and (k == 0 or st["from"] < k) and
                    ((not (j >= st["from"] and j < k)) or line(j) == line(k - 1)), size=n)
        return (numbered, first, code, line, start, j)

    def callee(self, L, inp):
        numbered, first, code, line, start, j = inp
        return {"javatools:JavaCodeInfo.get_linenumbertable": lambda ci: ((0, first),) if numbered else (),
                "javatools:JavaCodeInfo.disassemble": lambda ci: code,
                "javatools:JavaCodeInfo.get_line_for_offset": lambda ci, o: abstract("line", [o])}

    def forms(self, inp):
        numbered, first, code, line, start, j = inp

        def current(i, init):
            if i == 0:
                return None
            f = start.at(i)["from"]
            return table(i - f, lambda x: code[f + x], list)

        def cur_line(i, init):
            if i == 0:
                return None
            return line(i - 1)
        return {"cur_line": cur_line, "current": current}

    def run(self, L, inp):
        numbered, first, code, line, start, j = inp
        if symbolic():
            ci = code_info(L)
        else:
            base = L.jt.JavaCodeInfo

            class Fake(base):
                def get_linenumbertable(self):
                    return ((0, first),) if numbered else ()

                def disassemble(self):
                    return code

                def get_line_for_offset(self, o):
                    return line(o)
            ci = Fake(Pool())
        return tuple((a, r, tuple(c)) for a, r, c in ci.iter_code_by_lines())

    def spec(self, inp):
        numbered, first, code, line, start, j = inp
        n = len(code)
        if not numbered:
            cover("unnumbered")
            return ((1, 1, code),)
        if n == 0:
            cover("empty")
            return ()
        cover("numbered")

        def group(k):
            # the run that ends before k
            f = start.at(k)["from"]
            return ((line(k - 1), line(k - 1) - first, table(k - f, lambda x: code[f + x])),)
        if not symbolic():
            out = []
            for k in range(n):
                if k and line(k) == line(k - 1):
                    out[-1][2].append(code[k])
                else:
                    out.append((line(k), line(k) - first, [code[k]]))
            return tuple((a, b, tuple(c)) for a, b, c in out)
        return flat(n, lambda k: group(k) if k > 0 and line(k) != line(k - 1) else ()) + group(n)


class Code:
    """a code block with these groups"""
    def __init__(self, groups):
        self.groups = groups

    def iter_code_by_lines(self):
        return self.groups


@contract
class Merge(Contract):
    """the groups are those of the contract above: (first + relative, relative, instructions)"""
    prop = "C08"
    name = "merge_code"
    functions = ("javatools.classdiff:merge_code",)
    bound = "at most three groups on the left and two on the right (their lines and instructions are not bounded)"
    must_cover = ("left", "right", "both", "neither", "again")
    cases_quick = 1500

    def inputs(self, w):
        def side(name, most):
            have = w.bool(name)
            first = w.u2(name + ".first")
            n = w.choice(name + ".groups", tuple(range(most + 1)))
            return have, first, tuple([(w.int("%s.rel%d" % (name, j), None if w.sym else -2, None if w.sym else 2),
                                        w.seq("%s.dis%d" % (name, j), lambda w, x: (w.u2("offset"), w.u1("op"))))
                                       for j in range(n)])
        return (w.int("line", None if w.sym else -2, None if w.sym else 2), side("left", 3), side("right", 2))

    def run(self, L, inp):
        line, left, right = inp

        def code(side):
            have, first, g = side
            return Code([(rel + first, rel, table(len(dis), lambda x: dis[x], list)) for rel, dis in g]) if have else None
        d = L.classdiff.merge_code(code(left), code(right))
        if line not in d:
            return None
        return tuple([x if x is None else (x[0], tuple(x[1])) for x in d[line]])

    def spec(self, inp):
        line, left, right = inp

        def part(side):
            have, first, g = side
            hit = [dis for rel, dis in g if rel == line]
            if not have or not hit:
                return None
            if len(hit) > 1:
                cover("again")
            out = ()
            for dis in hit:
                out = out + table(len(dis), lambda x, dis=dis: dis[x])
            return (line + first, out)
        a, b = part(left), part(right)
        cover("neither" if a is None and b is None else "left" if b is None else "right" if a is None else "both")
        if a is None and b is None:
            return None
        return (a, b)
