"""C13: method code counts as changed exactly when its meaning changed"""
from pv.api import *

MODULES = ("javatools", "javatools.pack", "javatools.opcodes", "javatools.change", "javatools.classdiff")

# opcodes and whether the first operand is a pool index (proved of the opcode table in C06)
OPS = ((0x00, False), (0x10, False), (0x12, True), (0xb2, True), (0xb9, True), (0xaa, False), (0x13, True))


class Pool:
    """any pool: index 0 and what `holds` denies is refused"""
    def __init__(self, side, tags=None, vals=None):
        self.side, self.tags, self.vals = side, tags, vals

    def get_const(self, i):
        if symbolic():
            return (abstract("tag" + self.side, [i]), i)
        return (self.tags[i % len(self.tags)], i)

    def deref_const(self, i):
        if symbolic():
            return abstract("value" + self.side, [i])
        return self.vals[i % len(self.vals)]

    def typed(self, i):
        return (self.get_const(i)[0], self.deref_const(i))


class Code:
    def __init__(self, size, ins, pool):
        self.code = size
        self.ins = ins
        self.cpool = pool

    def disassemble(self):
        return self.ins

    def __bool__(self):
        return True

    # for the other changes of a body
    max_stack = max_locals = 2
    exceptions = ()

    def get_linenumbertable(self):
        return ()

    def get_relativelinenumbertable(self):
        return ()


def is_const(op):
    if symbolic():
        return abstract("has_const", [op], "bool")
    return dict(OPS)[op]


class Bodies(Contract):
    """a code block (or none) on either side: any bytes, any instructions, any pool"""
    prop = "C13"
    cases_quick = 3000

    def side(self, w, name):
        have = w.choice(name, ("present", "present", "missing")) == "present" if not w.sym else w.bool(name)
        if w.sym:
            ins = w.seq(name + ".ins", lambda w, k: (w.nat("offset"), w.u1("op"), w.nat("first"), w.opaque("rest")))
            code = w.bytes(name + ".code")
        else:
            code = bytes(w.choice(name + ".size", (1, 2, 2)))
            ins = tuple([(w.choice("%s.offset%d" % (name, j), (j, j, j + 1)), w.choice("%s.op%d" % (name, j), (0, 0x12, 0xb2, 0xb9, 0x10)),
                          w.choice("%s.first%d" % (name, j), (1, 2, 3)), w.choice("%s.rest%d" % (name, j), (0, 0, 1)))
                         for j in range(w.choice(name + ".n", (0, 1, 2, 2)))])
        pool = Pool(name) if w.sym else Pool(name, [w.choice("%s.tag%d" % (name, j), (7, 8)) for j in range(3)],
                                             [w.choice("%s.val%d" % (name, j), ("a", "b")) for j in range(3)])
        return (have, code, ins, pool)

    def inputs(self, w):
        return (self.side(w, "L"), self.side(w, "R"))

    def callee(self, L, inp):
        return {"javatools.opcodes:has_const_arg": is_const}

    def code(self, side):
        have, code, ins, pool = side
        if not have:
            return None
        return Code(code, table(len(ins), lambda k: (ins[k][0], ins[k][1], (ins[k][2], ins[k][3]))), pool)

    def run(self, L, inp):
        c = getattr(L.classdiff, self.which)(self.code(inp[0]), self.code(inp[1]))
        c.check()
        return bool(c.is_change())

    def shape(self, inp):
        """True, False or None (only their operands can tell)"""
        (lh, lc, li, lp), (rh, rc, ri, rp) = inp
        if not lh or not rh:
            cover("missing")
            return True
        if len(lc) != len(rc):
            cover("length")
            return True
        if len(li) != len(ri):
            cover("instructions")
            return True
        if exists(len(li), lambda k: li[k][0] != ri[k][0] or li[k][1] != ri[k][1]):
            cover("opcodes")
            return True
        return False


@contract
class Body(Bodies):
    name = "CodeBodyChange.check"
    functions = ("javatools.classdiff:CodeBodyChange.check_impl", "javatools.change:GenericChange.check")
    which = "CodeBodyChange"
    must_cover = ("missing", "length", "instructions", "opcodes", "same")

    def spec(self, inp):
        r = self.shape(inp)
        if not r:
            cover("same")
        return r


@contract
class Constants(Bodies):
    """instructions of the same number, as the length of an instruction follows from its offset, opcode and operands"""
    name = "CodeConstantsChange.check"
    functions = ("javatools.classdiff:CodeConstantsChange.check_impl",)
    which = "CodeConstantsChange"
    must_cover = ("missing", "length", "opcodes", "operands", "same")

    def inputs(self, w):
        l, r = self.side(w, "L"), self.side(w, "R")
        w.require(len(l[2]) == len(r[2]))
        return (l, r)

    def spec(self, inp):
        if self.shape(inp):
            return True
        (lh, lc, li, lp), (rh, rc, ri, rp) = inp

        def differ(k):
            l, r = li[k], ri[k]
            if l[3] != r[3]:
                return True
            if is_const(l[1]):
                return lp.typed(l[2]) != rp.typed(r[2])
            return l[2] != r[2]
        if exists(len(li), differ):
            cover("operands")
            return True
        cover("same")
        return False


class Method:
    def __init__(self, code):
        self.c = code

    def get_code(self):
        return self.c


@contract
class Abstract(Bodies):
    """the verdict over the parts of a body is that of SuperChange.check_impl (C10)"""
    name = "MethodCodeChange.check"
    functions = ("javatools.classdiff:MethodCodeChange.check_impl", "javatools.classdiff:MethodCodeChange.__init__")
    must_cover = ("both abstract", "one abstract", "parts")
    cases_quick = 500

    def callee(self, L, inp):
        def parts(self):
            ensure(self.ldata is not None and self.rdata is not None, "parts of two bodies are compared")
            return (abstract("a part changed", [0], "bool"), None)
        return {"javatools.change:SuperChange.check_impl": parts, "javatools.opcodes:has_const_arg": is_const}

    def run(self, L, inp):
        c = L.classdiff.MethodCodeChange(Method(self.code(inp[0])), Method(self.code(inp[1])))
        c.check()
        return bool(c.is_change())

    def spec(self, inp):
        l, r = inp
        if not l[0] and not r[0]:
            cover("both abstract")
            return False
        if not l[0] or not r[0]:
            cover("one abstract")
            return True
        cover("parts")
        if symbolic():
            return bool(abstract("a part changed", [0], "bool"))
        return self.shape(inp) or len(l[2]) > len(r[2]) or Constants.spec(self, inp)


@contract
class AbstractFlag(Bodies):
    name = "MethodAbstractChange.check"
    functions = ("javatools.classdiff:MethodAbstractChange.fn_data",)
    must_cover = ("one abstract", "alike")
    cases_quick = 200

    def run(self, L, inp):
        c = L.classdiff.MethodAbstractChange(Method(self.code(inp[0])), Method(self.code(inp[1])))
        c.check()
        return bool(c.is_change())

    def spec(self, inp):
        r = bool(inp[0][0]) != bool(inp[1][0])
        cover("one abstract" if r else "alike")
        return r
