"""C06: disassembly follows the JVM instruction encoding exactly"""
import struct
from pv.api import *

MODULES = ("javatools.opcodes", "javatools.pack")

# The Java Virtual Machine Specification, chapter 6: mnemonic, opcode, operand layout, first operand is a pool index
_OPS = """nop aconst_null iconst_m1 iconst_0 iconst_1 iconst_2 iconst_3 iconst_4 iconst_5 lconst_0 lconst_1 fconst_0 fconst_1 fconst_2
dconst_0 dconst_1 bipush:b sipush:h ldc:B! ldc_w:H! ldc2_w:H! iload:B lload:B fload:B dload:B aload:B
iload_0 iload_1 iload_2 iload_3 lload_0 lload_1 lload_2 lload_3 fload_0 fload_1 fload_2 fload_3 dload_0 dload_1 dload_2 dload_3
aload_0 aload_1 aload_2 aload_3 iaload laload faload daload aaload baload caload saload istore:B lstore:B fstore:B dstore:B astore:B
istore_0 istore_1 istore_2 istore_3 lstore_0 lstore_1 lstore_2 lstore_3 fstore_0 fstore_1 fstore_2 fstore_3
dstore_0 dstore_1 dstore_2 dstore_3 astore_0 astore_1 astore_2 astore_3 iastore lastore fastore dastore aastore bastore castore sastore
pop pop2 dup dup_x1 dup_x2 dup2 dup2_x1 dup2_x2 swap iadd ladd fadd dadd isub lsub fsub dsub imul lmul fmul dmul
idiv ldiv fdiv ddiv irem lrem frem drem ineg lneg fneg dneg ishl lshl ishr lshr iushr lushr iand land ior lor ixor lxor iinc:Bb
i2l i2f i2d l2i l2f l2d f2i f2l f2d d2i d2l d2f i2b i2c i2s lcmp fcmpl fcmpg dcmpl dcmpg
ifeq:h ifne:h iflt:h ifge:h ifgt:h ifle:h if_icmpeq:h if_icmpne:h if_icmplt:h if_icmpge:h if_icmpgt:h if_icmple:h if_acmpeq:h if_acmpne:h
goto:h jsr:h ret:B tableswitch:table lookupswitch:lookup ireturn lreturn freturn dreturn areturn return
getstatic:H! putstatic:H! getfield:H! putfield:H! invokevirtual:H! invokespecial:H! invokestatic:H! invokeinterface:HBB! invokedynamic:HBB!
new:H! newarray:B anewarray:H! arraylength athrow checkcast:H! instanceof:H! monitorenter:.monitorentry monitorexit wide:wide
multianewarray:HB! ifnull:h ifnonnull:h goto_w:i jsr_w:i""".split()

OPS = {}
for _k, _t in enumerate(_OPS):
    _n, _s, _l = _t.partition(":")
    if _l.startswith("."):
        _n, _l = _l[1:], ""
    OPS[_k] = (_n, _l.rstrip("!"), _l.endswith("!"))
assert len(OPS) == 202 and OPS[0xc9][0] == "jsr_w" and OPS[0xaa][0] == "tableswitch" and OPS[0x84][0] == "iinc"
LAYOUTS = sorted({v[1] for v in OPS.values()})
# forms of wide: opcodes taking a 16-bit local variable index; iinc also a 16-bit signed constant
WIDENED = (0x15, 0x16, 0x17, 0x18, 0x19, 0x36, 0x37, 0x38, 0x39, 0x3a, 0xa9)
IINC = 0x84
SZ = {"b": 1, "B": 1, "h": 2, "H": 2, "i": 4}


def num(data, o, c):
    """the operand of kind c at o, per the specification: big endian, lower case signed"""
    n = SZ[c]
    v = 0
    for k in range(n):
        v = v * 256 + data[o + k]
    if c in "bhi":
        if v >= 1 << (8 * n - 1):
            v = v - (1 << (8 * n))
    return v


def pad(o):
    """first multiple of four at or after o"""
    return o + (-o) % 4


@contract
class Table(Contract):
    """the instruction set: every opcode has its mnemonic, and refers to the pool exactly where the specification says"""
    prop = "C06"
    name = "instruction table"
    functions = ("javatools.opcodes:get_opname_by_code", "javatools.opcodes:get_opcode_by_name", "javatools.opcodes:has_const_arg",
                 "javatools.opcodes:get_arg_format")
    must_cover = ("known", "unknown")
    maxpaths = 8000
    cases_quick = 2000

    def inputs(self, w):
        return w.choice("code", tuple(range(256)))

    def run(self, L, code):
        op = L.opcodes
        name = op.get_opname_by_code(code)
        return (name, op.get_opcode_by_name(name), op.get_opcode_by_name(name.upper()), bool(op.has_const_arg(code)),
                bool(op.get_arg_format(code)), getattr(op, "OP_" + name))

    def spec(self, code):
        for k in OPS:
            if code == k:
                cover("known")
                n, lay, const = OPS[k]
                return (n, k, k, const, lay != "", k)
        cover("unknown")
        raise Raises("KeyError")


class Operands(Contract):
    prop = "C06"
    must_cover = ("ok", "short")
    gen = None

    def inputs(self, w):
        data = w.bytes("code", gen=self.gen)
        off = w.nat("off", len(data)) if w.bool("inside") else 0
        return (data, off)

    def decode(self, L, data, off):
        raise NotImplementedError

    def run(self, L, inp):
        data, off = inp
        try:
            args, nxt = self.decode(L, data, off)
        except (struct.error, IndexError, TypeError):
            return ("short",)
        return ("ok", args, nxt)


@contract
class Fixed(Operands):
    """operands of fixed layout, for every layout of the instruction set"""
    name = "_unpack"
    functions = ("javatools.opcodes:_unpack",)
    lays = tuple(x for x in LAYOUTS if x not in ("", "table", "lookup", "wide"))

    def inputs(self, w):
        lay = w.choice("layout", self.lays)
        return Operands.inputs(self, w) + (lay,)

    def run(self, L, inp):
        data, off, lay = inp
        try:
            args, nxt = L.opcodes._unpack(struct.Struct(">" + lay), data, off)
        except struct.error:
            return ("short",)
        return ("ok", args, nxt)

    def spec(self, inp):
        data, off, lay = inp
        out, o = [], off
        n = sum(SZ[c] for c in lay)
        if off + n > len(data):
            cover("short")
            return ("short",)
        for c in lay:
            out.append(num(data, o, c))
            o = o + SZ[c]
        cover("ok")
        return ("ok", tuple(out), o)


def gen_switch(r):
    n = r.choice([0, 1, 2, 3, 5])
    lo = r.choice([0, 1, -1, 7, -2 ** 31, 2 ** 31 - 6])
    off = r.randrange(4)
    if r.random() < .5:
        b = struct.pack(">iii", r.randrange(-99, 99), lo, lo + n - 1 if lo + n - 1 >= -2 ** 31 else lo)
        b += b"".join(struct.pack(">i", r.randrange(-2 ** 31, 2 ** 31)) for _ in range(n))
    else:
        b = struct.pack(">ii", r.randrange(-99, 99), n)
        b += b"".join(struct.pack(">ii", r.randrange(-99, 99), r.randrange(-2 ** 31, 2 ** 31)) for _ in range(n))
    b = bytes(r.randrange(256) for _ in range(r.choice([0, 4]))) + b
    b += bytes(r.randrange(256) for _ in range(r.randrange(3)))
    return b[:r.randrange(len(b))] if r.random() < .1 else b


@contract
class Lookup(Operands):
    name = "_unpack_lookupswitch"
    functions = ("javatools.opcodes:_unpack_lookupswitch",)
    gen = staticmethod(gen_switch)
    cases_quick = 1500

    def decode(self, L, data, off):
        (default, pairs), nxt = L.opcodes._unpack_lookupswitch(data, off)
        return (default, tuple(pairs)), nxt

    def forms(self, inp):
        b = pad(inp[1]) + 8
        return {"offset": lambda i, init: b + 8 * i}

    def spec(self, inp):
        data, off = inp
        o = pad(off)
        if o + 8 > len(data):
            cover("short")
            return ("short",)
        default, n = num(data, o, "i"), num(data, o + 4, "i")
        if n < 0:
            n = 0
        if o + 8 + 8 * n > len(data):
            cover("short")
            return ("short",)
        cover("ok")
        return ("ok", (default, table(n, lambda k: (num(data, o + 8 + 8 * k, "i"), num(data, o + 12 + 8 * k, "i")))), o + 8 + 8 * n)


@contract
class TableSwitch(Operands):
    name = "_unpack_tableswitch"
    functions = ("javatools.opcodes:_unpack_tableswitch",)
    gen = staticmethod(gen_switch)
    cases_quick = 1500

    def decode(self, L, data, off):
        (default, low, high, jumps), nxt = L.opcodes._unpack_tableswitch(data, off)
        # each entry is given as the one field unpacked for it
        return (default, low, high, tuple(j[0] if isinstance(j, tuple) else j for j in jumps)), nxt

    def forms(self, inp):
        b = pad(inp[1]) + 12
        return {"offset": lambda i, init: b + 4 * i}

    def spec(self, inp):
        data, off = inp
        o = pad(off)
        if o + 12 > len(data):
            cover("short")
            return ("short",)
        default, low, high = num(data, o, "i"), num(data, o + 4, "i"), num(data, o + 8, "i")
        n = high - low + 1
        if n < 0:
            n = 0
        if o + 12 + 4 * n > len(data):
            cover("short")
            return ("short",)
        cover("ok")
        return ("ok", (default, low, high, table(n, lambda k: num(data, o + 12 + 4 * k, "i"))), o + 12 + 4 * n)


def gen_wide(r):
    return bytes([r.choice(WIDENED + (IINC, 0, 0x1a, 255))]) + bytes(r.choice([0, 255, 128, 1, 77]) for _ in range(r.choice([4, 5, 4, 2, 1])))


@contract
class Wide(Operands):
    name = "_unpack_wide"
    functions = ("javatools.opcodes:_unpack_wide",)
    must_cover = ("iinc", "local", "bad", "short")
    gen = staticmethod(gen_wide)
    cases_quick = 1500

    def run(self, L, inp):
        data, off = inp
        try:
            args, nxt = L.opcodes._unpack_wide(data, off)
        except Exception:
            return ("refused",)
        return ("ok", args, nxt)

    def spec(self, inp):
        data, off = inp
        if off >= len(data):
            cover("short")
            return ("refused",)
        code = data[off]
        if code == IINC:
            if off + 5 > len(data):
                cover("short")
                return ("refused",)
            cover("iinc")
            return ("ok", (code, num(data, off + 1, "H"), num(data, off + 3, "h")), off + 5)
        if code in WIDENED:
            if off + 3 > len(data):
                cover("short")
                return ("refused",)
            cover("local")
            return ("ok", (code, num(data, off + 1, "H")), off + 3)
        cover("bad")
        return ("refused",)


def operands(data, o, lay):
    """spec: (operands, next offset) of layout `lay` at o, or None if the body is too short or they are malformed"""
    if lay == "lookup":
        o = pad(o)
        if o + 8 > len(data):
            return None
        n = num(data, o + 4, "i")
        if n < 0:
            n = 0
        if o + 8 + 8 * n > len(data):
            return None
        return ((num(data, o, "i"), table(n, lambda k: (num(data, o + 8 + 8 * k, "i"), num(data, o + 12 + 8 * k, "i")))), o + 8 + 8 * n)
    if lay == "table":
        o = pad(o)
        if o + 12 > len(data):
            return None
        low, high = num(data, o + 4, "i"), num(data, o + 8, "i")
        n = high - low + 1
        if n < 0:
            n = 0
        if o + 12 + 4 * n > len(data):
            return None
        return ((num(data, o, "i"), low, high, table(n, lambda k: num(data, o + 12 + 4 * k, "i"))), o + 12 + 4 * n)
    if lay == "wide":
        if o >= len(data):
            return None
        code = data[o]
        if code == IINC:
            if o + 5 > len(data):
                return None
            return ((code, num(data, o + 1, "H"), num(data, o + 3, "h")), o + 5)
        if code in WIDENED and o + 3 <= len(data):
            return ((code, num(data, o + 1, "H")), o + 3)
        return None
    out = []
    if o + sum(SZ[c] for c in lay) > len(data):
        return None
    for c in lay:
        out.append(num(data, o, c))
        o = o + SZ[c]
    return (tuple(out), o)


def plain(code, args):
    """operands in the form of the specification above"""
    if code == 0xab:
        return (args[0], tuple(args[1]))
    if code == 0xaa:
        return (args[0], args[1], args[2], tuple(j[0] if isinstance(j, tuple) else j for j in args[3]))
    return args


@contract
class Decoder(Operands):
    """the decoder registered for each opcode reads that opcode's operands"""
    name = "get_arg_format"
    functions = ("javatools.opcodes:get_arg_format",)
    must_cover = ("ok", "none", "short")
    cases_quick = 4000
    budget = 400
    maxpaths = 20000

    def inputs(self, w):
        return (w.choice("opcode", tuple(sorted(OPS))),) + Operands.inputs(self, w)

    def forms(self, inp):
        b = pad(inp[2])
        if inp[0] == 0xab:
            return {"offset": lambda i, init: b + 8 + 8 * i}
        return {"offset": lambda i, init: b + 12 + 4 * i}

    def run(self, L, inp):
        code, data, off = inp
        f = L.opcodes.get_arg_format(code)
        if not f:
            return ("none",)
        try:
            args, nxt = f(data, off)
        except Exception:
            return ("refused",)
        return ("ok", plain(code, args), nxt)

    def spec(self, inp):
        code, data, off = inp
        lay = OPS[code][1]
        if not lay:
            cover("none")
            return ("none",)
        r = operands(data, off, lay)
        if r is None:
            cover("short")
            return ("refused",)
        cover("ok")
        return ("ok",) + r


def instruction(data, o):
    """spec: (opcode, operands, next offset) of the instruction at o, None if there is none"""
    code = data[o]
    if symbolic():
        if not abstract("is_opcode", [code], "bool"):
            return None
        if not abstract("has_operands", [code], "bool"):
            return (code, (), o + 1)
        if abstract("operands_bad", [code, o + 1], "bool"):
            return None
        return (code, abstract("operands", [code, o + 1], "opaque"), o + 1 + abstract("operands_size", [code, o + 1], "int"))
    if code not in OPS:
        return None
    lay = OPS[code][1]
    if not lay:
        return (code, (), o + 1)
    r = operands(data, o + 1, lay)
    return None if r is None else (code, r[0], r[1])


def gen_code(r):
    b = b""
    for _ in range(r.choice([0, 1, 2, 3, 5, 9])):
        code = r.randrange(202)
        if r.random() < .3:
            code = r.choice([0xaa, 0xab, 0xc4, 0x84, 0x10, 0x11, 0xc5, 0x12])
        lay = OPS[code][1]
        b += bytes([code])
        if lay == "wide":
            b += gen_wide(r)
        elif lay in ("table", "lookup"):
            b += b"\0" * (-len(b) % 4)
            n = r.choice([0, 1, 2, 4])
            if lay == "lookup":
                b += struct.pack(">ii", r.randrange(99), n) + bytes(r.randrange(256) for _ in range(8 * n))
            else:
                lo = r.choice([0, -1, 5])
                b += struct.pack(">iii", r.randrange(99), lo, lo + n - 1) + bytes(r.randrange(256) for _ in range(4 * n))
        else:
            b += bytes(r.choice([0, 1, 127, 128, 255, r.randrange(256)]) for _ in range(sum(SZ[c] for c in lay)))
    if r.random() < .15:
        b = b[:r.randrange(len(b) + 1)]
    if r.random() < .05:
        b += bytes([r.randrange(202, 256)])
    return b


@contract
class Disassemble(Contract):
    prop = "C06"
    name = "disassemble"
    functions = ("javatools.opcodes:disassemble",)
    must_cover = ("ok", "bad")
    cases_quick = 3000
    weight = 5

    def inputs(self, w):
        data = w.bytes("code", gen=gen_code)

        def step(k, st):
            o = st["off"]
            if o >= len(data):
                return {"off": o + 1}
            r = instruction(data, o)
            if r is None or not (r[2] > o):
                return {"off": o + 1}
            return {"off": r[2]}
        cur = Rec("instr", {"off": "int"}, {"off": 0}, step, facts=lambda k, st: st["off"] >= k)
        return (data, cur)

    def callee(self, L, inp):
        """the contract of get_arg_format, proved above: the decoder of an opcode gives its operands and where they end,
        which is inside the body and not before it started"""
        def fmt(code):
            if not abstract("is_opcode", [code], "bool"):
                raise KeyError("no such opcode")
            if not abstract("has_operands", [code], "bool"):
                return None

            def decoder(bc, o):
                if abstract("operands_bad", [code, o], "bool"):
                    raise ValueError("operands")
                n = abstract("operands_size", [code, o], "int")
                assume(n >= 0)
                return abstract("operands", [code, o], "opaque"), o + n
            return decoder
        return {"javatools.opcodes:get_arg_format": fmt}

    def forms(self, inp):
        return {"offset": lambda i, init: inp[1].at(i)["off"]}

    def run(self, L, inp):
        data = inp[0]
        if symbolic():
            return tuple(L.opcodes.disassemble(data))
        return tuple((o, c, plain(c, a)) for o, c, a in L.opcodes.disassemble(data))

    def post(self, inp, got):
        data, cur = inp

        def bad(k):
            o = cur.at(k)["off"]
            return o < len(data) and instruction(data, o) is None
        if got[0] == "raise":
            cover("bad")
            for k in range(3):
                note(k)
            ensure(exists(len(data), bad), "refused only for a malformed instruction")
            return
        cover("ok")
        out = got[1]
        n = len(out)
        ensure_eq(cur.at(n)["off"] >= len(data), True, "the body is covered")

        def one(k):
            o = cur.at(k)["off"]
            r = instruction(data, o)
            return (o, r[0], r[1])
        ensure_eq(out, table(n, one), "instructions")
        ensure(forall(n, lambda k: cur.at(k)["off"] < len(data)), "nothing beyond the body")
