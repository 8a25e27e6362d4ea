"""Symbolic values the instrumented code computes with."""
import z3
from . import core
from .core import I, S, Bo, BY, FL, OB, Unsupported, cur, Infeasible


class Sym:
    __slots__ = ()

    def __hash__(self):
        raise Unsupported("hash of a symbolic value")

    def __iter__(self):
        raise Unsupported("native iteration over %s" % type(self).__name__)

    def __len__(self):
        raise Unsupported("native len of %s" % type(self).__name__)

    def __index__(self):
        raise Unsupported("native index of %s" % type(self).__name__)

    def __bool__(self):
        return True


class Poison(Sym):
    """a value that does not matter; any use of it is an error of the invariant, not of the code"""
    def __init__(self, loc):
        self.loc = loc

    def _no(self, *a, **k):
        e = Unsupported("use of a value unknown after the loop: %r" % (self.loc,))
        e.loc = self.loc
        raise e
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __add__ = __radd__ = __sub__ = __rsub__ = _no
    __getitem__ = __setitem__ = __contains__ = __call__ = __bool__ = __len__ = __iter__ = __index__ = _no
    __mul__ = __rmul__ = __and__ = __rand__ = __or__ = __ror__ = __mod__ = __rmod__ = __neg__ = __enter__ = _no
    __hash__ = object.__hash__

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        self._no()


class Unbound:
    def __repr__(self):
        return "<unbound>"


UNBOUND = Unbound()


# ---------------------------------------------------------------- numbers

def mkint(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SInt(e)


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def zi(x):
    if isinstance(x, SInt):
        return x.e
    if isinstance(x, SBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    raise Unsupported("integer expected, got %s" % type(x).__name__)


def zb(x):
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, bool):
        return z3.BoolVal(x)
    raise Unsupported("boolean expected, got %s" % type(x).__name__)


def isint(x):
    return isinstance(x, (int, SInt, SBool))


def tb(x):
    """truth of anything as a z3 Bool where that needs no fork"""
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, SInt):
        return x.e != 0
    if isinstance(x, SStr):
        return z3.Length(x.e) > 0
    if isinstance(x, SBytes):
        return zi(x.n) > 0
    if isinstance(x, SRope):
        return zi(x.length()) > 0
    return z3.BoolVal(bool(x))


class SBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return cur().fork(self.e)

    def __repr__(self):
        return "SBool(%s)" % core.short(self.e, 80)

    def __and__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(z3.And(self.e, zb(o)))
        return NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(z3.Or(self.e, zb(o)))
        return NotImplemented
    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.e, zb(o)))
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(self.e == zb(o))
        if isinstance(o, (int, SInt)):
            return mkbool(zi(self) == zi(o))
        return False

    def __ne__(self, o):
        return not_(self.__eq__(o))
    __hash__ = Sym.__hash__

    def __add__(self, o):
        return SInt(zi(self)) + o
    __radd__ = __add__


def not_(x):
    if isinstance(x, SBool):
        return mkbool(z3.Not(x.e))
    if isinstance(x, (SInt, SStr, SBytes)):
        return mkbool(z3.Not(tb(x)))
    return not x


class SInt(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return "SInt(%s)" % core.short(self.e, 80)

    def __bool__(self):
        return cur().fork(self.e != 0)

    def _b(self, o, f, r=False):
        if not isint(o):
            return NotImplemented
        a, b = self.e, zi(o)
        return mkint(f(b, a) if r else f(a, b))

    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    def __radd__(self, o): return self._b(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: a - b, True)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._b(o, lambda a, b: a * b, True)
    def __neg__(self): return mkint(-self.e)
    def __pos__(self): return self
    def __abs__(self): return mkint(z3.If(self.e >= 0, self.e, -self.e))

    def _posc(self, o):
        if isinstance(o, int) and not isinstance(o, bool) and o > 0:
            return o
        raise Unsupported("division by a non-constant")

    def __floordiv__(self, o):
        if not isint(o):
            return NotImplemented
        return mkint(self.e / self._posc(o))

    def __mod__(self, o):
        if not isint(o):
            return NotImplemented
        return mkint(self.e % self._posc(o))

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        raise Unsupported("float division")
    __rtruediv__ = __truediv__

    def __lshift__(self, o):
        if isinstance(o, int):
            return self * (1 << o)
        raise Unsupported("symbolic shift")

    def __rshift__(self, o):
        if isinstance(o, int):
            return self // (1 << o)
        raise Unsupported("symbolic shift")

    def __and__(self, o):
        if isinstance(o, int) and not isinstance(o, bool) and o >= 0:
            # sum of the selected bits; for mathematical integers in two's complement floor div/mod agree
            tot = z3.IntVal(0)
            k = 0
            m = o
            while m:
                if m & 1:
                    w = 0                        # a run of consecutive set bits
                    while (m >> w) & 1:
                        w += 1
                    tot = tot + ((self.e / (1 << k)) % (1 << w)) * (1 << k)
                    m >>= w
                    k += w
                else:
                    m >>= 1
                    k += 1
            return mkint(tot)
        if isinstance(o, SInt):
            raise Unsupported("& of two symbolic integers")
        return NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, int) and not isinstance(o, bool) and o >= 0:
            return self + o - (self & o)
        if isinstance(o, SInt):
            # the only use in scope joins disjoint bit fields: (hi << k) | lo
            raise Unsupported("| of two symbolic integers")
        return NotImplemented
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, int) and o >= 0:
            return self + o - 2 * (self & o)
        raise Unsupported("^")
    __rxor__ = __xor__

    def __invert__(self):
        return mkint(-self.e - 1)

    def _c(self, o, f):
        if isinstance(o, float):
            if o == float("inf"):
                return f(0, 1)
            if o == float("-inf"):
                return f(0, -1)
        if not isint(o):
            return NotImplemented
        return mkbool(f(self.e, zi(o)))

    def __eq__(self, o):
        if not isint(o):
            return False
        return mkbool(self.e == zi(o))

    def __ne__(self, o):
        if not isint(o):
            return True
        return mkbool(self.e != zi(o))
    __hash__ = Sym.__hash__

    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)


# ---------------------------------------------------------------- opaque values

class SOpq(Sym):
    """a value of which nothing is known but its identity (sort Obj); == is reflexive equality"""
    __slots__ = ("e", "hint")

    def __init__(self, e, hint="value"):
        self.e = e
        self.hint = hint

    def __repr__(self):
        return "SOpq(%s)" % core.short(self.e, 60)

    def __eq__(self, o):
        if isinstance(o, SOpq):
            return mkbool(self.e == o.e)
        return False

    def __ne__(self, o):
        return not_(self.__eq__(o))
    __hash__ = Sym.__hash__

    def __bool__(self):
        raise Unsupported("truth of an opaque value")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("attribute %s of an opaque value" % n)


class SFloat(Sym):
    """an IEEE value, known by its raw bits; == is the uninterpreted IEEE comparison"""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __eq__(self, o):
        if isinstance(o, SFloat):
            return mkbool(FEQ(self.e, o.e))
        return False

    def __ne__(self, o):
        return not_(self.__eq__(o))
    __hash__ = Sym.__hash__


F32 = z3.Function("f32", I, FL)
F64 = z3.Function("f64", I, FL)
FEQ = z3.Function("ieee_eq", FL, FL, Bo)


# ---------------------------------------------------------------- strings

def zs(x):
    if isinstance(x, SStr):
        return x.e
    if isinstance(x, str):
        return z3.StringVal(x)
    if isinstance(x, (bytes, bytearray)):
        return z3.StringVal("".join("\\u{%x}" % c for c in x))
    raise Unsupported("string expected, got %s" % type(x).__name__)


def zstr_py(e):
    """python str of a z3 string literal"""
    s = e.as_string()
    out = []
    i = 0
    while i < len(s):
        if s.startswith("\\u{", i):
            j = s.index("}", i)
            out.append(chr(int(s[i + 3:j], 16)))
            i = j + 1
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def mkstr(e, b=False):
    e = z3.simplify(e)
    if z3.is_string_value(e):
        s = zstr_py(e)
        return s.encode("latin-1") if b else s
    return SStr(e, b)


def isstr(x):
    return isinstance(x, (str, bytes, SStr))


def within(a, L):
    if z3.is_int_value(a) and a.as_long() == 0:
        return True
    p = core.CUR
    return p is not None and not p.feasible(z3.Not(z3.And(a >= 0, a <= L)))


def str_parts(e, out):
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        for c in e.children():
            str_parts(c, out)
    else:
        out.append(e)
    return out


def cut(e, a, b):
    """e[a:b] where a and b fall on the borders of its parts (or inside constant ones); None: elsewhere"""
    parts = str_parts(z3.simplify(e), [])
    lens = [z3.Length(x) for x in parts]
    tot = z3.simplify(z3.Sum(*lens) if len(lens) > 1 else lens[0])
    out = []
    pos = z3.IntVal(0)
    state = 0
    # negative constant: from the end
    for v in (a, b):
        if z3.is_int_value(v) and v.as_long() < 0:
            n = v.as_long()
            last = parts[-1]
            if not (z3.is_string_value(last) and len(zstr_py(last)) >= -n):
                return None
    if z3.is_int_value(a) and a.as_long() < 0:
        a = z3.simplify(tot + a)
    if z3.is_int_value(b) and b.as_long() < 0:
        b = z3.simplify(tot + b)

    def off(v, at, n):
        """v - at when that is a constant within 0..n"""
        d = z3.simplify(v - at)
        if z3.is_int_value(d) and 0 <= d.as_long() <= n:
            return d.as_long()
        if marked and z3.is_int_value(v) and not z3.is_int_value(d):
            for j in range(n + 1):
                if cur().known(d == j):
                    return j
        return None
    marked = len(parts) > 1 and any(cur().unit.get(("free", x.get_id())) is not None for x in parts)
    for x, ln in zip(parts, lens):
        lit = zstr_py(x) if z3.is_string_value(x) else None
        n = len(lit) if lit is not None else 0
        lo = 0
        if state == 0:
            lo = off(a, pos, n)
            if lo is None:
                pos = z3.simplify(pos + ln)
                continue
            state = 1
        if state == 1:
            hi = off(b, pos, n)
            if hi is not None and (lit is not None or hi == 0):
                if lit is not None:
                    if hi < lo:
                        return z3.StringVal("")
                    out.append(z3.StringVal(lit[lo:hi]))
                state = 2
                break
            out.append(z3.StringVal(lit[lo:]) if lit is not None else x)
        pos = z3.simplify(pos + ln)
    if state == 0:
        return z3.StringVal("") if off(a, pos, 0) == 0 else None
    if state == 1 and off(b, pos, 0) != 0:
        return None
    out = [x for x in out if not (z3.is_string_value(x) and zstr_py(x) == "")]
    if not out:
        return z3.StringVal("")
    return z3.Concat(*out) if len(out) > 1 else out[0]


def mark_free(t, chars, nonempty):
    """precondition: the text t contains none of these characters"""
    p = cur()
    p.unit["free", t.get_id()] = (t, chars, nonempty)
    if nonempty:
        p.assume(z3.Length(t) > 0)
        h = z3.SubString(t, 0, 1)
        for ch in chars:
            p.assume(z3.And(h != z3.StringVal(ch), z3.StrToCode(h) != ord(ch)))


def is_free(x, ch):
    """None: not known"""
    if z3.is_string_value(x):
        return ch not in zstr_py(x)
    m = cur().unit.get(("free", x.get_id()))
    return True if m is not None and ch in m[1] else None


def has_text(x):
    if z3.is_string_value(x):
        return bool(zstr_py(x))
    m = cur().unit.get(("free", x.get_id()))
    return m is not None and m[2]


def one_char(o):
    if isinstance(o, (str, bytes)) and len(o) == 1:
        return o if isinstance(o, str) else o.decode("latin-1")
    return None


class SStr(Sym):
    """z3-String backed text (b=False) or bytes (b=True, code points 0..255)"""
    __slots__ = ("e", "b", "parts")

    def __init__(self, e, b=False, parts=None):
        self.e = e
        self.b = b
        self.parts = parts

    def __repr__(self):
        return "SStr(%s)" % core.short(self.e, 80)

    def __bool__(self):
        if any(has_text(x) for x in str_parts(self.e, [])):
            return True
        return cur().fork(z3.Length(self.e) > 0)

    def compat(self, o):
        if isinstance(o, SStr):
            return o.b == self.b
        return isinstance(o, (bytes, bytearray) if self.b else str)

    def length(self):
        return mkint(z3.Length(self.e))

    def __eq__(self, o):
        if not self.compat(o):
            return False
        if not isinstance(o, SStr) and len(o) == 0 and any(has_text(x) for x in str_parts(self.e, [])):
            return False
        if not isinstance(o, SStr):
            # component by component
            for ch in "/:":
                ps = str_parts(self.e, [])
                if any(cur().unit.get(("free", x.get_id())) is not None for x in ps) and all(is_free(x, ch) is not None for x in ps):
                    a = [zs(x) for x in self.split(ch.encode() if self.b else ch)]
                    b = [zs(x) for x in o.split(ch.encode() if self.b else ch)]
                    if len(a) != len(b):
                        return False
                    if len(a) > 1:
                        return mkbool(z3.And(*[x == y for x, y in zip(a, b)]))
        return mkbool(self.e == zs(o))

    def __ne__(self, o):
        return not_(self.__eq__(o))
    __hash__ = Sym.__hash__

    def __lt__(self, o): return mkbool(self.e < zs(o))
    def __gt__(self, o): return mkbool(zs(o) < self.e)
    def __le__(self, o): return mkbool(z3.Not(zs(o) < self.e))
    def __ge__(self, o): return mkbool(z3.Not(self.e < zs(o)))

    def __add__(self, o):
        if not self.compat(o):
            return NotImplemented
        return mkstr(z3.Concat(self.e, zs(o)), self.b)

    def __radd__(self, o):
        if not self.compat(o):
            return NotImplemented
        return mkstr(z3.Concat(zs(o), self.e), self.b)

    def __mul__(self, n):
        if isinstance(n, int):
            if n <= 0:
                return b"" if self.b else ""
            return mkstr(z3.Concat(*([self.e] * n)) if n > 1 else self.e, self.b)
        raise Unsupported("string repetition")
    __rmul__ = __mul__

    def contains(self, o):
        if self.b and isinstance(o, (int, SInt)):
            raise Unsupported("byte in bytes")
        ch = one_char(o)
        if ch is not None:
            free = [is_free(x, ch) for x in str_parts(self.e, [])]
            if False in free:
                return True
            if all(free):
                return False
        return mkbool(z3.Contains(self.e, zs(o)))

    def __contains__(self, o):
        return bool(self.contains(o))

    def __getitem__(self, k):
        L = z3.Length(self.e)
        if isinstance(k, slice):
            if k.step not in (None, 1):
                raise Unsupported("string slice with step")
            a = zi(k.start) if k.start is not None else z3.IntVal(0)
            b = zi(k.stop) if k.stop is not None else L
            got = cut(self.e, z3.simplify(a), z3.simplify(b))
            if got is not None:
                return mkstr(got, self.b)
            a = norm_idx(a, L) if not within(a, L) else a
            b = norm_idx(b, L) if k.stop is not None and not within(b, L) else b
            return mkstr(z3.SubString(self.e, a, z3.If(b > a, b - a, z3.IntVal(0))), self.b)
        x = str_parts(self.e, [])[0]
        if isinstance(k, int) and k >= 0 and z3.is_string_value(x) and len(zstr_py(x)) > k:
            return ord(zstr_py(x)[k]) if self.b else zstr_py(x)[k]
        i = zi(k)
        if not (isinstance(k, int) and k == 0 and has_text(x)) and not cur().fork(z3.And(i < L, i >= -L)):
            raise IndexError("string index out of range")
        j = z3.If(i < 0, i + L, i)
        if self.b:
            return mkint(z3.StrToCode(z3.SubString(self.e, j, 1)))
        return mkstr(z3.SubString(self.e, j, 1))

    def startswith(self, o, *r):
        if r:
            raise Unsupported("startswith with offset")
        if isinstance(o, tuple):
            res = False
            for x in o:
                res = mkbool(z3.Or(zb(res), z3.PrefixOf(zs(x), self.e)))
            return res
        ch = one_char(o)
        if ch is not None:
            x = str_parts(self.e, [])[0]
            if z3.is_string_value(x) and zstr_py(x):
                return zstr_py(x)[0] == ch
            if has_text(x) and is_free(x, ch):
                return False
        return mkbool(z3.PrefixOf(zs(o), self.e))

    def endswith(self, o, *r):
        if r:
            raise Unsupported("endswith with offset")
        if isinstance(o, tuple):
            res = False
            for x in o:
                res = mkbool(z3.Or(zb(res), z3.SuffixOf(zs(x), self.e)))
            return res
        ch = one_char(o)
        if ch is not None:
            for x in reversed(str_parts(self.e, [])):
                f = is_free(x, ch)
                if z3.is_string_value(x):
                    if zstr_py(x):
                        return zstr_py(x)[-1] == ch
                elif not f:
                    break
                elif has_text(x) or cur().fork(z3.Length(x) > 0):
                    return False
            else:
                return False
        return mkbool(z3.SuffixOf(zs(o), self.e))

    def find(self, o, start=0):
        ch = one_char(o)
        if ch is not None and isinstance(start, int) and start == 0:
            at = z3.IntVal(0)
            for x in str_parts(self.e, []):
                f = is_free(x, ch)
                if f is None:
                    break
                if not f:
                    return mkint(at + zstr_py(x).find(ch))
                at = z3.simplify(at + z3.Length(x))
            else:
                return -1
        return mkint(z3.IndexOf(self.e, zs(o), zi(start)))

    def index(self, o, start=0):
        r = self.find(o, start)
        if r == -1:
            raise ValueError("substring not found")
        return r

    def rfind(self, o):
        return mkint(z3.LastIndexOf(self.e, zs(o)))

    def split(self, sep=None, maxsplit=-1):
        ch = one_char(sep)
        if ch is not None and maxsplit == -1:
            out, last = [], []
            for x in str_parts(self.e, []):
                f = is_free(x, ch)
                if f is None:
                    break
                if f:
                    last.append(x)
                    continue
                t = zstr_py(x).split(ch)
                for j, y in enumerate(t):
                    if j:
                        out.append(last)
                        last = []
                    if y:
                        last.append(z3.StringVal(y))
            else:
                e = z3.StringVal("")
                return cur().newobj(PList([mkstr(z3.Concat(*l) if len(l) > 1 else l[0] if l else e, self.b)
                                           for l in out + [last]]))
        if sep is None or maxsplit != 1:
            raise Unsupported("general split of a symbolic string")
        k = self.find(sep)
        if k == -1:
            return cur().newobj(PList([self]))
        return cur().newobj(PList([self[:k], self[k + core_len(sep):]]))

    def partition(self, sep):
        k = self.find(sep)
        e = b"" if self.b else ""
        if k == -1:
            return (self, e, e)
        return (self[:k], sep, self[k + core_len(sep):])

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None or maxsplit != 1:
            raise Unsupported("general rsplit of a symbolic string")
        k = self.rfind(sep)
        if k == -1:
            return cur().newobj(PList([self]))
        return cur().newobj(PList([self[:k], self[k + core_len(sep):]]))

    def encode(self, *a):
        if not self.b and tuple(a) == ("ascii", "backslashreplace"):
            # text of ASCII characters stays as it is
            out = []
            for x in str_parts(z3.simplify(self.e), []):
                lit = z3.is_string_value(x) and zstr_py(x).isascii()
                out.append(x if lit or z3.is_app(x) and x.decl().name() == "backslashed" else BACKSLASHED(x))
            return mkstr(z3.Concat(*out) if len(out) > 1 else out[0], True)
        if a and str(a[0]).replace("-", "").lower() != "utf8":
            raise Unsupported("encode " + str(a[0]))
        out = []
        for x in str_parts(z3.simplify(self.e), []):
            if z3.is_string_value(x):
                out.append(zstr_py(x).encode("utf-8"))
                continue
            n = UTF8LEN(x)
            p = cur()
            k = ("utf8", n.get_id())
            if k not in p.unit:
                p.unit[k] = n
                p.assume(n >= 0)
            out.append(SBytes(UTF8(x), 0, SInt(n)))
        return rope(out)

    def decode(self, enc="utf8", errors="strict"):
        if enc == "ascii" and self.b and all(z3.is_string_value(x) and zstr_py(x).isascii() or z3.is_app(x) and x.decl().name() == "backslashed"
                                             for x in str_parts(z3.simplify(self.e), [])):
            return SStr(self.e, False)
        if enc.replace("-", "").lower() != "utf8":
            raise Unsupported("decode " + enc)
        if errors != "strict":
            return SStr(z3.Function("utf8_decode_" + errors, S, S)(self.e), False)
        return SStr(DEUTF8(self.e), False)

    def lower(self):
        return SStr(LOWER(self.e), self.b)

    def upper(self):
        # part by part
        out = []
        p = cur()
        for x in str_parts(z3.simplify(self.e), []):
            if z3.is_string_value(x) and not self.b:
                out.append(z3.StringVal(zstr_py(x).upper()))
                continue
            y = UPPER(x)
            if z3.is_app(x) and x.decl().name() == "upper":
                y = x
            m = p.unit.get(("free", x.get_id()))
            if m is not None:
                # only letters change, and to letters
                keep = "".join(ch for ch in m[1] if ch in "/.:-_ \x00")
                p.unit["free", y.get_id()] = (y, keep, m[2])
            out.append(y)
        return mkstr(z3.Concat(*out) if len(out) > 1 else out[0], self.b)

    def strip(self, ch=None):
        return self.uf("strip", ch)

    def rstrip(self, ch=None):
        return self.uf("rstrip", ch)

    def lstrip(self, ch=None):
        return self.uf("lstrip", ch)

    def uf(self, name, *args):
        f = z3.Function("%s(%r)" % (name, args), S, S)
        return SStr(f(self.e), self.b)

    def replace(self, a, b, *r):
        if r:
            raise Unsupported("replace with a count")
        f = z3.Function("replace_all", S, S, S, S)
        ch = one_char(a)
        if ch is not None:
            # part by part
            out = []
            for x in str_parts(z3.simplify(self.e), []):
                if z3.is_string_value(x):
                    x = z3.StringVal(zstr_py(x).replace(ch, b if isinstance(b, str) else b.decode("latin-1"))) \
                        if isinstance(b, (str, bytes)) else f(x, zs(a), zs(b))
                elif not is_free(x, ch):
                    x = f(x, zs(a), zs(b))
                out.append(x)
            return mkstr(z3.Concat(*out) if len(out) > 1 else out[0], self.b)
        return SStr(f(self.e, zs(a), zs(b)), self.b)

    def join(self, seq):
        from . import rt
        return rt.str_join(self, seq)

    def isdigit(self):
        return mkbool(z3.Function("isdigit", S, Bo)(self.e))


UTF8 = z3.Function("utf8", S, BY)
BACKSLASHED = z3.Function("backslashed", S, S)
UTF8LEN = z3.Function("utf8_len", S, I)
DEUTF8 = z3.Function("utf8_decode", S, S)
LOWER = z3.Function("lower", S, S)
UPPER = z3.Function("upper", S, S)
REPR = z3.Function("repr", OB, S)


def core_len(x):
    if isinstance(x, SStr):
        return x.length()
    return len(x)


def norm_idx(a, L):
    """python's slice index normalisation"""
    a = z3.If(a < 0, a + L, a)
    return z3.If(a < 0, z3.IntVal(0), z3.If(a > L, L, a))


# ---------------------------------------------------------------- byte buffers

BYTE = z3.Function("byte", BY, I, I)


class SBytes(Sym):
    """`n` bytes of the byte string `base`, from `off`"""
    __slots__ = ("base", "off", "n")

    def __init__(self, base, off, n):
        self.base, self.off, self.n = base, off, n

    def __repr__(self):
        return "SBytes(%s,%s,%s)" % (self.base, self.off, self.n)

    def __bool__(self):
        return bool(self.n > 0)

    def length(self):
        return self.n

    def at(self, i):
        """i-th byte; the caller has established 0 <= i < n"""
        p = cur()
        idx = z3.simplify(zi(self.off + i))
        t = BYTE(self.base, idx)
        k = ("byte", t.get_id())
        if k not in p.unit:
            p.unit[k] = t
            p.assume(z3.And(t >= 0, t <= 255))
        return SInt(t)

    def __getitem__(self, k):
        n = zi(self.n)
        if isinstance(k, slice):
            if k.step not in (None, 1):
                raise Unsupported("slice with step")
            a = zi(k.start) if k.start is not None else z3.IntVal(0)
            b = zi(k.stop) if k.stop is not None else n
            p = cur()
            # prefer simple terms when the path condition decides the clamping
            if p.known(z3.And(a >= 0, a <= b, b <= n)):
                return SBytes(self.base, mkint(zi(self.off) + a), mkint(b - a))
            a = norm_idx(a, n)
            b = norm_idx(b, n)
            return SBytes(self.base, mkint(zi(self.off) + a), mkint(z3.If(b > a, b - a, z3.IntVal(0))))
        i = zi(k)
        if not cur().fork(z3.And(i < n, i >= -n)):
            raise IndexError("index out of range")
        return self.at(mkint(z3.If(i < 0, i + n, i)))

    def __eq__(self, o):
        if isinstance(o, (bytes, bytearray)):
            if not (self.n == len(o)):
                return False
            r = z3.BoolVal(True)
            for k, c in enumerate(o):
                r = z3.And(r, zi(self.at(k)) == c)
            return mkbool(r)
        if isinstance(o, SBytes):
            if self is o:
                return True
            if self.base.eq(o.base) and cur().known(z3.And(zi(self.off) == zi(o.off), zi(self.n) == zi(o.n))):
                return True
            if not (self.n == o.n):
                return False
            from . import rt
            return not rt.exists(self.n, lambda k: not_(rt.eqf(self.at(k), o.at(k))))
        return False

    def __ne__(self, o):
        return not_(self.__eq__(o))
    __hash__ = Sym.__hash__

    def decode(self, enc="utf8", errors="strict"):
        if enc == "ascii" and self.b and all(z3.is_string_value(x) and zstr_py(x).isascii() or z3.is_app(x) and x.decl().name() == "backslashed"
                                             for x in str_parts(z3.simplify(self.e), [])):
            return SStr(self.e, False)
        if enc.replace("-", "").lower() != "utf8":
            raise Unsupported("decode " + enc)
        off, n = z3.simplify(zi(self.off)), z3.simplify(zi(self.n))
        if errors != "strict":
            return SStr(z3.Function("decode_utf8_" + errors, BY, I, I, S)(self.base, off, n))
        if cur().fork(BADUTF8(self.base, off, n)):
            raise UnicodeDecodeError("utf-8", b"?", 0, 1, "malformed")
        return SStr(DECODE(self.base, off, n))

    def replace(self, a, b):
        if not (isinstance(a, bytes) and isinstance(b, bytes)):
            raise Unsupported("replace in symbolic bytes")
        nm = "replace_%s_%s" % (a.hex(), b.hex())
        off, n = z3.simplify(zi(self.off)), z3.simplify(zi(self.n))
        t = z3.Function(nm, BY, I, I, BY)(self.base, off, n)
        ln = z3.Function(nm + "_len", BY, I, I, I)(self.base, off, n)
        cur().assume(ln >= 0)
        return SBytes(t, 0, SInt(ln))

    def tobytes(self):
        return self

    def __add__(self, o):
        if not isinstance(o, (bytes, SBytes, SRope)):
            return NotImplemented
        return rope([self, o])

    def __radd__(self, o):
        if not isinstance(o, (bytes, SBytes, SRope)):
            return NotImplemented
        return rope([o, self])


def rope(pieces):
    """concatenation of byte strings"""
    out = []
    for x in pieces:
        for y in (x.pieces if isinstance(x, SRope) else (x,)):
            if isinstance(y, (bytes, bytearray)):
                if not y:
                    continue
                if out and isinstance(out[-1], bytes):
                    out[-1] = out[-1] + bytes(y)
                    continue
            elif isinstance(y, SBytes):
                if isinstance(y.n, int) and y.n == 0:
                    continue
                if out and isinstance(out[-1], SBytes) and out[-1].base.eq(y.base):
                    e = z3.simplify(zi(out[-1].off) + zi(out[-1].n))
                    if e.eq(z3.simplify(zi(y.off))) or cur().known(e == zi(y.off)):
                        out[-1] = SBytes(y.base, out[-1].off, mkint(zi(out[-1].n) + zi(y.n)))
                        continue
            else:
                raise TypeError("bytes expected")
            out.append(y)
    if not out:
        return b""
    if len(out) == 1:
        return out[0]
    return SRope(out)


def atoms(b):
    """every literal byte by itself and every unknown piece by itself"""
    out = []
    for x in (b.pieces if isinstance(b, SRope) else (b,)):
        if isinstance(x, bytes):
            out += list(x)
        elif not cur().known(zi(x.n) <= 0):
            out.append(x)
    return out


def text_atoms(x):
    """every literal character by itself and every unknown piece by itself"""
    if isinstance(x, str):
        return tuple(x)
    out = ()
    for y in str_parts(z3.simplify(x.e), []):
        out += tuple(zstr_py(y)) if z3.is_string_value(y) else (SStr(y, x.b),)
    return out


class SRope(Sym):
    """bytes put together from literal and unknown pieces"""
    __slots__ = ("pieces",)

    def __init__(self, pieces):
        self.pieces = tuple(pieces)

    def __repr__(self):
        return "SRope%r" % (self.pieces,)

    def length(self):
        n = 0
        for x in self.pieces:
            n = n + (len(x) if isinstance(x, bytes) else x.n)
        return n

    def __bool__(self):
        if any(isinstance(x, bytes) for x in self.pieces):
            return True
        return bool(self.length() > 0)

    def __add__(self, o):
        if not isinstance(o, (bytes, SBytes, SRope)):
            return NotImplemented
        return rope([self, o])

    def __radd__(self, o):
        if not isinstance(o, (bytes, SBytes, SRope)):
            return NotImplemented
        return rope([o, self])

    def __getitem__(self, k):
        p = cur()
        n = zi(self.length())
        if not isinstance(k, slice):
            i = zi(k)
            if not p.fork(z3.And(i < n, i >= -n)):
                raise IndexError("index out of range")
            i = z3.simplify(z3.If(i < 0, i + n, i))
            o = z3.IntVal(0)
            for x in self.pieces:
                ln = z3.IntVal(len(x)) if isinstance(x, bytes) else zi(x.n)
                if p.fork(i < o + ln):
                    if isinstance(x, bytes):
                        raise Unsupported("index into a rope")
                    return x.at(mkint(i - o))
                o = z3.simplify(o + ln)
            raise Unsupported("index of a rope")
        if k.step not in (None, 1):
            raise Unsupported("slice with step")
        a = zi(k.start) if k.start is not None else z3.IntVal(0)
        b = zi(k.stop) if k.stop is not None else n
        if not p.known(a >= 0):
            a = norm_idx(a, n)
        if not p.known(b >= 0):
            b = norm_idx(b, n)
        out = []
        o = z3.IntVal(0)
        for j, x in enumerate(self.pieces):
            ln = z3.IntVal(len(x)) if isinstance(x, bytes) else zi(x.n)
            e = z3.simplify(o + ln)
            last = j == len(self.pieces) - 1
            if p.fork(a >= e):
                o = e
                continue
            lo = z3.IntVal(0) if p.fork(a <= o) else z3.simplify(a - o)
            if isinstance(x, bytes) or not last:
                if p.fork(b >= e):
                    hi = ln
                else:
                    hi = z3.simplify(b - o)
            else:
                hi = ln if p.known(b >= e) else b - o if p.known(b <= e) else z3.If(b >= e, ln, b - o)
                if not p.known(hi >= lo):
                    hi = z3.If(hi >= lo, hi, lo)
            if isinstance(x, bytes):
                if not (z3.is_int_value(lo) and z3.is_int_value(hi)):
                    # a place inside a literal piece
                    for c in range(len(x) + 1):
                        if p.fork(lo == c):
                            lo = z3.IntVal(c)
                            break
                    for c in range(len(x) + 1):
                        if p.fork(hi == c):
                            hi = z3.IntVal(c)
                            break
                out.append(x[lo.as_long():max(hi.as_long(), lo.as_long())])
            else:
                out.append(SBytes(x.base, mkint(zi(x.off) + lo), mkint(hi - lo)))
            if not last and not p.fork(b > e):
                break
            o = e
        return rope(out)

    def __eq__(self, o):
        raise Unsupported("equality of symbolic byte strings")
    __ne__ = __eq__
    __hash__ = Sym.__hash__

    def tobytes(self):
        return self

    def pv_eq(self, o, name):
        from . import rt
        p = cur()
        if not isinstance(o, SRope):
            p.fail(name, "undecided: %r against %r" % (self, o))
        if len(o.pieces) != len(self.pieces):
            p.fail(name, "undecided: differently made byte strings")
        for x, y in zip(self.pieces, o.pieces):
            rt.prove_eq(x, y, name)


DECODE = z3.Function("decode_utf8", BY, I, I, S)
BADUTF8 = z3.Function("malformed_utf8", BY, I, I, Bo)


def uint(b, i, w):
    v = 0
    for k in range(w):
        v = v * 256 + b.at(i + k)
    return v


def sint(b, i, w):
    u = uint(b, i, w)
    if isinstance(u, int):
        return u - (1 << 8 * w) if u >= 1 << (8 * w - 1) else u
    return mkint(z3.If(u.e >= (1 << (8 * w - 1)), u.e - (1 << (8 * w)), u.e))


# ---------------------------------------------------------------- sequences

class Items:
    __slots__ = ("l",)

    def __init__(self, l):
        self.l = list(l)


def lazily(p, get, k):
    """an element made on demand; logically it was there all the time"""
    if p is None:
        return get(k)
    p.creating += 1
    try:
        return get(k)
    finally:
        p.creating -= 1


class FS:
    """n elements get(0..n-1); pos, if given, tells the index of the first occurrence of a text"""
    __slots__ = ("n", "get", "pos")

    def __init__(self, n, get, pos=None):
        memo = {}
        written = []
        self.pos = pos

        def g(k):
            p = core.CUR
            if isinstance(k, SInt) and p is not None:
                k = mkint(k.e)
            kk = k.e.get_id() if isinstance(k, SInt) else ("c", k)
            key = (id(p), kk)
            if key not in memo:
                for o, j, q in written:
                    if q is p and bool(j == k):
                        return o
                o = lazily(p, get, k)
                memo[key] = (o, k, p)
                if p is not None and not isinstance(o, (Sym, int, str, bytes, tuple, type, type(None))):
                    p.origin.setdefault(id(o), (written, k, o))
            return memo[key][0]
        self.n, self.get = n, g


class FM:
    """concatenation of the sequences g(0) .. g(n-1); g(k) is an SSeq"""
    __slots__ = ("n", "g")

    def __init__(self, n, g):
        memo = {}

        def gg(k):
            p = core.CUR
            if isinstance(k, SInt) and p is not None:
                k = mkint(k.e)
            kk = k.e.get_id() if isinstance(k, SInt) else ("c", k)
            key = (id(p), kk)
            if key not in memo:
                memo[key] = (SSeq.of(lazily(p, g, k)), k, p)
            return memo[key][0]
        self.n, self.g = n, gg


def fm_twin(s):
    """an earlier part counted on this path that has the same elements, if it provably does"""
    p = cur()
    from . import rt
    for t in p.unit.setdefault("counted", []):
        if t is s:
            return s
        if p.known(zi(t.n) == zi(s.n)) is not True:
            continue
        key = ("twin",) + tuple(p.dec)
        if key in p.driver.irregular:
            continue
        if p.fork(z3.Bool(p.fresh("lemma"))):
            # a lemma proved on a path of its own: an arbitrary index gives the same elements in both
            w = rt.fresh_index(s.n)
            rt.add_index(w)
            a, b = t.g(w), s.g(w)
            if not (a.native() and b.native() and len(a.items()) == len(b.items()) and
                    all(bool(rt.cmp("==", x, y)) for x, y in zip(a.items(), b.items()))):
                p.driver.irregular.add(key)
                raise core.NeedSym(key)
            raise core.PathEnd()
        return t
    p.unit["counted"].append(s)
    return s


def fm_count(s):
    """the number of elements; only whether there is one is known"""
    p = cur()
    key = ("flen", id(s))
    if key not in p.unit:
        r = fm_twin(s)
        if r is not s:
            p.unit[key] = (fm_count(r), s, r)
        else:
            t = SInt(z3.Int(p.fresh("count")))
            p.unit[key] = (t, s, s)
            from . import rt
            if rt.exists(s.n, lambda k: s.g(k).nonempty()):
                p.assume(t.e >= 1)
            else:
                p.assume(t.e == 0)
    return p.unit[key][0]


def fm_first(s, j):
    """its first element"""
    from . import rt
    p = cur()
    n = fm_count(s)
    s = p.unit["flen", id(s)][2]
    if p.known(zi(j) == 0) is not True:
        raise Unsupported("element of a filtered sequence")
    key = ("first", id(s))
    if key not in p.unit:
        w = rt.fresh_index(s.n)
        rt.add_index(w)
        x = s.g(w)
        if not x.nonempty():
            raise Infeasible()
        if not x.native():
            raise Unsupported("element of a filtered sequence")
        p.unit[key] = x.items()[0]

        def fact(k):
            # the first one, and the only one if there is one
            if s.g(k).nonempty():
                if len(s.g(k).items()) > 1:
                    raise Unsupported("element of a filtered sequence")
                if k < w:
                    raise Infeasible()
                if n == 1 and not (k == w):
                    raise Infeasible()
        rt.add_forall(s.n, fact)
    return p.unit[key]


class Unknown:
    """the elements present before the current iteration (must not be looked at)"""
    __slots__ = ("loc", "bound")

    def __init__(self, loc):
        self.loc = loc


class SSeq(Sym):
    """an immutable sequence given by segments; kind is tuple, list or gen"""
    __slots__ = ("segs", "kind")

    def __init__(self, segs, kind=tuple):
        out = []
        for s in segs:
            if isinstance(s, Items):
                if not s.l:
                    continue
                if out and isinstance(out[-1], Items):
                    out[-1] = Items(out[-1].l + s.l)
                    continue
            elif isinstance(s, (FS, FM)):
                if isinstance(s.n, int):
                    if s.n <= 0:
                        continue
                    if s.n <= 64 and isinstance(s, FS):
                        it = Items([s.get(k) for k in range(s.n)])
                        if out and isinstance(out[-1], Items):
                            out[-1] = Items(out[-1].l + it.l)
                        else:
                            out.append(it)
                        continue
            out.append(s)
        self.segs, self.kind = out, kind

    @staticmethod
    def of(x):
        if isinstance(x, SSeq):
            return x
        if isinstance(x, PList):
            return x.seq()
        if isinstance(x, (tuple, list)):
            return SSeq([Items(x)], tuple)
        if isinstance(x, SBytes):
            return SSeq([FS(x.n, x.at)], tuple)
        if isinstance(x, PDict):
            return SSeq([Items(x.keyitems())])
        if isinstance(x, PSet):
            return x.seq()
        if isinstance(x, (dict, set, frozenset, str, bytes, range)):
            return SSeq([Items(list(x))])
        if hasattr(x, "pv_seq"):
            return SSeq.of(x.pv_seq())
        raise Unsupported("not a sequence: %s" % type(x).__name__)

    def __repr__(self):
        return "SSeq(%s)" % ",".join(type(s).__name__ for s in self.segs)

    def native(self):
        return all(isinstance(s, Items) for s in self.segs)

    def items(self):
        """all elements as a python list, if their number is concrete"""
        out = []
        for s in self.segs:
            if isinstance(s, Items):
                out += s.l
            elif isinstance(s, FM) and isinstance(s.n, int):
                for k in range(s.n):
                    out += s.g(k).items()
            else:
                raise Unsupported("elements of a sequence of unknown length")
        return out

    def length(self):
        n = 0
        self.regular()
        for s in self.segs:
            if isinstance(s, Items):
                n = n + len(s.l)
            elif isinstance(s, FS):
                n = n + s.n
            elif isinstance(s, FM):
                n = n + fm_count(s)
            else:
                raise Unsupported("length of a list under construction")
        return n

    def regular(self):
        """replace parts known to give one element per index"""
        p = cur()
        for i, s in enumerate(self.segs):
            if isinstance(s, FM):
                key = tuple(p.dec)
                if key in p.driver.irregular:
                    continue
                if p.fork(z3.Bool(p.fresh("lemma"))):
                    # a lemma proved on a path of its own: an arbitrary index gives exactly one element
                    from . import rt
                    w = rt.fresh_index(s.n)
                    rt.add_index(w)
                    t = s.g(w)
                    if not (t.native() and len(t.items()) == 1):
                        p.driver.irregular.add(key)
                        raise core.NeedSym(key)
                    raise core.PathEnd()
                self.segs[i] = FS(s.n, lambda k, s=s: s.g(k).items()[0])

    def nonempty(self):
        from . import rt
        for s in self.segs:
            if isinstance(s, Items):
                return True
        r = False
        for s in self.segs:
            if isinstance(s, FS):
                if s.n > 0:
                    return True
            elif isinstance(s, FM):
                if ("flen", id(s)) in cur().unit:
                    if fm_count(s) > 0:
                        return True
                elif rt.exists(s.n, lambda k, s=s: s.g(k).nonempty()):
                    return True
            else:
                raise Unsupported("emptiness of a list under construction")
        return False

    def __bool__(self):
        return bool(self.nonempty())

    def __iter__(self):
        if self.native():
            return iter(self.items())
        raise Unsupported("native iteration over a symbolic sequence")

    def index(self, k):
        """element k (int or SInt, may be negative)"""
        if isinstance(k, int) and k >= 0:
            j = k
            for s in self.segs:
                if isinstance(s, Items):
                    if j < len(s.l):
                        return s.l[j]
                    j -= len(s.l)
                else:
                    break
            else:
                raise IndexError("index out of range")
        if isinstance(k, int) and k < 0 and self.segs and isinstance(self.segs[-1], Items) and -k <= len(self.segs[-1].l):
            return self.segs[-1].l[k]
        n = self.length()
        if isinstance(k, int) and isinstance(n, int):
            if not -n <= k < n:
                raise IndexError("index out of range")
        if k < 0:
            k = k + n
        if not cur().fork(z3.And(zi(k) >= 0, zi(k) < zi(n))):
            raise IndexError("index out of range")
        base = 0
        for idx, s in enumerate(self.segs):
            m = len(s.l) if isinstance(s, Items) else fm_count(s) if isinstance(s, FM) else s.n
            if idx == len(self.segs) - 1 or bool(k - base < m):
                j = k - base
                if isinstance(s, Items):
                    if isinstance(j, int):
                        return s.l[j]
                    for t in range(len(s.l) - 1):
                        if j == t:
                            return s.l[t]
                    cur().assume(zi(j) == len(s.l) - 1)
                    return s.l[-1]
                if not isinstance(s, FS):
                    return fm_first(s, j)
                return s.get(j)
            base = base + m
        raise IndexError("index out of range")

    def __getitem__(self, k):
        if isinstance(k, slice):
            return self.slice(k)
        return self.index(k)

    def slice(self, k):
        if k.step not in (None, 1):
            raise Unsupported("slice with step")
        if self.native():
            a, b = k.start, k.stop
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                return SSeq([Items(self.items()[k])], self.kind)
        # [c:] where the first c elements are concrete
        if k.stop is None and isinstance(k.start, int) and k.start >= 0:
            if k.start == 0:
                return self
            if isinstance(self.segs[0], Items) and len(self.segs[0].l) >= k.start:
                return SSeq([Items(self.segs[0].l[k.start:])] + self.segs[1:], self.kind)
        n = self.length()
        if k.start in (None, 0) and len(self.segs) == 1 and isinstance(self.segs[0], FS) and self.segs[0].pos and \
                cur().known(z3.And(zi(k.stop) >= 0, zi(k.stop) <= zi(n))):
            return SSeq([FS(k.stop, self.segs[0].get, self.segs[0].pos)], self.kind)
        L = zi(n)
        a = mkint(norm_idx(zi(k.start), L)) if k.start is not None else 0
        b = mkint(norm_idx(zi(k.stop), L)) if k.stop is not None else n
        m = b - a
        m = mkint(z3.If(zi(m) > 0, zi(m), z3.IntVal(0)))
        return SSeq([FS(m, lambda j: self.index(a + j))], self.kind)

    def cat(self, o, kind=None):
        return SSeq(self.segs + SSeq.of(o).segs, kind or self.kind)

    def __add__(self, o):
        if isinstance(o, (tuple, list, SSeq, PList)):
            return self.cat(o)
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (tuple, list)):
            return SSeq.of(o).cat(self, type(o) if not isinstance(o, PList) else list)
        return NotImplemented

    def __eq__(self, o):
        from . import rt
        return rt.eqf(self, o)

    def __ne__(self, o):
        return not_(self.__eq__(o))
    __hash__ = Sym.__hash__

    def __contains__(self, x):
        from . import rt
        return bool(rt.contains(self, x))

    def map(self, f, kind=None):
        out = []
        for s in self.segs:
            if isinstance(s, Items):
                out.append(Items([f(x) for x in s.l]))
            elif isinstance(s, FS):
                out.append(FS(s.n, lambda k, s=s: f(s.get(k))))
            elif isinstance(s, FM):
                out.append(FM(s.n, lambda k, s=s: s.g(k).map(f)))
            else:
                raise Unsupported("list under construction")
        return SSeq(out, kind or self.kind)

    def flatmap(self, f, kind=None):
        """f gives an SSeq for each element"""
        out = []
        for s in self.segs:
            if isinstance(s, Items):
                for x in s.l:
                    out += SSeq.of(f(x)).segs
            elif isinstance(s, FS):
                out.append(FM(s.n, lambda k, s=s: f(s.get(k))))
            elif isinstance(s, FM):
                out.append(FM(s.n, lambda k, s=s: s.g(k).flatmap(f)))
            else:
                raise Unsupported("list under construction")
        return SSeq(out, kind or self.kind)


class PList(list):
    """a mutable list: segments `pre` of possibly unknown length, then the native elements"""
    pre = None

    def seq(self):
        if self.pre:
            return SSeq(list(self.pre) + [Items(list.__iter__(self))], list)
        return SSeq([Items(list.__iter__(self))], list)

    def _w(self):
        p = core.CUR
        if p is not None:
            p.note_write(self, None)

    def length(self):
        return self.seq().length() if self.pre else list.__len__(self)

    def __len__(self):
        if self.pre:
            raise Unsupported("native len of a symbolic list")
        return list.__len__(self)

    def __bool__(self):
        if list.__len__(self):
            return True
        if self.pre:
            return self.seq().nonempty()
        return False

    def __iter__(self):
        if self.pre:
            raise Unsupported("native iteration over a symbolic list")
        return list.__iter__(self)

    def __getitem__(self, k):
        if self.pre:
            if isinstance(k, int) and k < 0 and -k <= list.__len__(self):
                return list.__getitem__(self, k)
            r = self.seq()[k]
            return mutable(r) if isinstance(k, slice) else r
        if isinstance(k, slice):
            if any(isinstance(x, Sym) for x in (k.start, k.stop, k.step)):
                return mutable(self.seq()[k])
            return newlist(list.__getitem__(self, k))
        if isinstance(k, Sym):
            return self.seq().index(k)
        return list.__getitem__(self, k)

    def append(self, x):
        self._w()
        list.append(self, x)

    def extend(self, it):
        self._w()
        from . import rt
        s = rt.toseq(it)
        if s.native():
            for x in s.items():
                list.append(self, x)
        else:
            self.pre = self.seq().segs + s.segs
            list.clear(self)

    def __iadd__(self, it):
        self.extend(it)
        return self

    def __add__(self, o):
        if isinstance(o, (list, SSeq)):
            return mutable(self.seq().cat(o, list))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (list, SSeq)):
            return mutable(SSeq.of(o).cat(self, list))
        return NotImplemented

    def __mul__(self, n):
        if isinstance(n, SInt) or self.pre:
            if not self.pre and len(self) == 1:
                v = self[0]
                return mutable(SSeq([FS(mkint(z3.If(zi(n) > 0, zi(n), z3.IntVal(0))), lambda k: v)], list))
            raise Unsupported("list repetition")
        return newlist(list.__mul__(self, n))

    def insert(self, i, x):
        self._w()
        if self.pre:
            raise Unsupported("insert into a symbolic list")
        list.insert(self, i, x)

    def pop(self, *a):
        self._w()
        if self.pre:
            if (not a or a == (-1,)) and list.__len__(self):
                return list.pop(self)
            raise Unsupported("pop from a symbolic list")
        return list.pop(self, *a)

    def __setitem__(self, k, v):
        self._w()
        if self.pre or isinstance(k, Sym):
            if isinstance(k, int) and k < 0 and -k <= list.__len__(self):
                return list.__setitem__(self, k, v)
            raise Unsupported("store into a symbolic list")
        list.__setitem__(self, k, v)

    def __delitem__(self, k):
        self._w()
        if self.pre:
            raise Unsupported("delete from a symbolic list")
        list.__delitem__(self, k)

    def remove(self, x):
        self._w()
        if self.pre:
            raise Unsupported("remove from a symbolic list")
        list.remove(self, x)

    def clear(self):
        self._w()
        self.pre = None
        list.clear(self)

    def sort(self, *a, **k):
        self._w()
        if self.pre:
            if cur().driver.order_free:
                cur().driver.used.add("the order produced by sorting")
                return
            raise Unsupported("sort of a symbolic list")
        list.sort(self, *a, **k)

    def reverse(self):
        self._w()
        if self.pre:
            raise Unsupported("reverse of a symbolic list")
        list.reverse(self)

    def copy(self):
        return mutable(self.seq())

    def index(self, x, *a):
        if self.pre:
            raise Unsupported("index in a symbolic list")
        return list.index(self, x, *a)

    def __contains__(self, x):
        from . import rt
        return bool(rt.contains(self, x))

    def __eq__(self, o):
        if not isinstance(o, (list, SSeq)):
            return False
        from . import rt
        return rt.eqf(self, o)

    def __ne__(self, o):
        return not_(self.__eq__(o))
    __hash__ = None

    # for loop frames
    def pv_save(self):
        return (self.pre, list(list.__iter__(self)))

    def pv_restore(self, s):
        self.pre = s[0]
        list.clear(self)
        list.extend(self, s[1])

    def pv_setseq(self, segs):
        self.pre = list(segs)
        list.clear(self)


def newlist(l):
    r = PList(l)
    if core.CUR is not None:
        core.CUR.newobj(r)
    return r


def mutable(seq):
    seq = SSeq.of(seq)
    r = PList()
    segs = list(seq.segs)
    if segs and isinstance(segs[-1], Items):
        list.extend(r, segs.pop().l)
    r.pre = segs or None
    if core.CUR is not None:
        core.CUR.newobj(r)
    return r


def concrete(x):
    """can x be hashed natively"""
    if isinstance(x, Sym):
        return False
    if isinstance(x, tuple):
        return all(concrete(y) for y in x)
    return True


TOMB = object()


class PDict(dict):
    """a dict; entries whose keys are symbolic live in `log` (newest last), over an optional abstract base.
    The base is any object with has(key), get(key), keys() -> SSeq."""
    log = ()
    base = None

    def __init__(self, *a, **k):
        dict.__init__(self)
        if a:
            self.update(a[0])
        for kk, v in k.items():
            self[kk] = v

    def _w(self):
        p = core.CUR
        if p is not None:
            p.note_write(self, None)

    def plain(self):
        return not self.log and self.base is None

    def lookup(self, key):
        """(True, value) or (False, None); may fork"""
        if concrete(key):
            if self.plain():
                if dict.__contains__(self, key):
                    return True, dict.__getitem__(self, key)
                return False, None
        from . import rt
        for k, v in reversed(self.log):
            if k is key or rt.eqf(k, key):
                return (False, None) if v is TOMB else (True, v)
        if concrete(key):
            if dict.__contains__(self, key):
                return True, dict.__getitem__(self, key)
        else:
            for k in dict.__iter__(self):
                if rt.eqf(k, key):
                    return True, dict.__getitem__(self, k)
        if self.base is not None:
            if self.base.has(key):
                return True, self.base.get(key)
        return False, None

    def __contains__(self, key):
        return self.lookup(key)[0]

    def __getitem__(self, key):
        ok, v = self.lookup(key)
        if ok:
            return v
        if hasattr(type(self), "__missing__"):
            return type(self).__missing__(self, key)
        raise KeyError(key)

    def get(self, key, default=None):
        ok, v = self.lookup(key)
        return v if ok else default

    def setdefault(self, key, default=None):
        ok, v = self.lookup(key)
        if ok:
            return v
        self[key] = default
        return default

    def __setitem__(self, key, v):
        self._w()
        if concrete(key) and self.plain():
            dict.__setitem__(self, key, v)
            return
        self.log = tuple(self.log) + ((key, v),)

    def __delitem__(self, key):
        ok, _v = self.lookup(key)
        if not ok:
            raise KeyError(key)
        self._w()
        if concrete(key) and self.plain():
            dict.__delitem__(self, key)
            return
        self.log = tuple(self.log) + ((key, TOMB),)

    def pop(self, key, *d):
        ok, v = self.lookup(key)
        if not ok:
            if d:
                return d[0]
            raise KeyError(key)
        PDict.__delitem__(self, key)
        return v

    def keyitems(self):
        ks = list(dict.__iter__(self))
        if self.base is not None:
            if not hasattr(self.base, "universe"):
                raise Unsupported("keys of an abstract dict")
            ks = list(self.base.keys()) + ks
        if not self.log:
            return ks
        from . import rt
        for k, v in self.log:
            hit = None
            for j, o in enumerate(ks):
                if o is k or rt.eqf(o, k):
                    hit = j
                    break
            if v is TOMB:
                if hit is not None:
                    del ks[hit]
            elif hit is None:
                ks.append(k)
        return ks

    def keys(self):
        if self.plain():
            return dict.keys(self)
        if self.base is not None and not self.log and not dict.__len__(self):
            return SSeq.of(self.base.keys())
        return SSeq([Items(self.keyitems())])

    def values(self):
        if self.plain():
            return dict.values(self)
        return SSeq.of(self.keys()).map(lambda k: self[k])

    def items(self):
        if self.plain():
            return dict.items(self)
        return SSeq.of(self.keys()).map(lambda k: (k, self[k]))

    def __iter__(self):
        if self.plain():
            return dict.__iter__(self)
        raise Unsupported("native iteration over a symbolic dict")

    def pv_seq(self):
        return self.keys()

    def length(self):
        if self.plain():
            return dict.__len__(self)
        return SSeq.of(self.keys()).length()

    def __len__(self):
        if self.plain():
            return dict.__len__(self)
        return len(self.keyitems())

    def __bool__(self):
        if self.plain():
            return dict.__len__(self) > 0
        return bool(SSeq.of(self.keys()))

    def update(self, *a, **k):
        for o in a:
            if isinstance(o, dict):
                for kk in (o.keyitems() if isinstance(o, PDict) else list(o)):
                    self[kk] = o[kk]
            else:
                for kk, v in o:
                    self[kk] = v
        for kk, v in k.items():
            self[kk] = v

    def clear(self):
        self._w()
        dict.clear(self)
        self.log = ()
        self.base = None

    def copy(self):
        r = PDict()
        dict.update(r, {k: dict.__getitem__(self, k) for k in dict.__iter__(self)})
        r.log = tuple(self.log)
        r.base = self.base
        if core.CUR is not None:
            core.CUR.newobj(r)
        return r

    def __eq__(self, o):
        from . import rt
        return rt.dict_eq(self, o)

    def __ne__(self, o):
        return not_(self.__eq__(o))
    __hash__ = None

    def pv_save(self):
        return (dict(dict.items(self)), tuple(self.log), self.base)

    def pv_restore(self, s):
        dict.clear(self)
        dict.update(self, s[0])
        self.log = s[1]
        self.base = s[2]

    def pv_setbase(self, base):
        dict.clear(self)
        self.log = ()
        self.base = base


class POrdered(PDict):
    """OrderedDict: same, insertion ordered"""

    def __eq__(self, o):
        if isinstance(o, POrdered):
            from . import rt
            a, b = self.keyitems(), o.keyitems()
            if len(a) != len(b):
                return False
            for x, y in zip(a, b):
                if not rt.eqf(x, y) or not rt.eqf(self[x], o[y]):
                    return False
            return True
        return PDict.__eq__(self, o)

    def __ne__(self, o):
        return not_(self.__eq__(o))
    __hash__ = None

    def __reversed__(self):
        return reversed(self.keyitems())


class PDefault(PDict):
    default_factory = None

    def __init__(self, factory=None, *a, **k):
        self.default_factory = factory
        PDict.__init__(self, *a, **k)

    def __missing__(self, key):
        from . import rt
        if self.default_factory is None:
            raise KeyError(key)
        v = rt.call(self.default_factory)
        self[key] = v
        return v


class PSet(set):
    """a set; members that are symbolic live in `sym`; `base` is an abstract membership object
    with has(x) and optionally seq() enumerating it without repetition"""
    sym = ()
    base = None

    def __init__(self, it=()):
        set.__init__(self)
        from . import rt
        s = rt.toseq(it)
        if s.native():
            for x in s.items():
                PSet._add(self, x)
        else:
            self.base = SeqMembers(s)

    def _w(self):
        p = core.CUR
        if p is not None:
            p.note_write(self, None)

    def plain(self):
        return not self.sym and self.base is None

    def has(self, x):
        from . import rt
        if self.plain() and concrete(x):
            return set.__contains__(self, x)
        for y in self.sym:
            if y is x or rt.eqf(y, x):
                return True
        if concrete(x):
            if set.__contains__(self, x):
                return True
        else:
            for y in set.__iter__(self):
                if rt.eqf(y, x):
                    return True
        if self.base is not None:
            return bool(self.base.has(x))
        return False

    def __contains__(self, x):
        return self.has(x)

    def _add(self, x):
        if concrete(x) and self.plain():
            set.add(self, x)
        elif not self.has(x):
            self.sym = tuple(self.sym) + (x,)

    def add(self, x):
        self._w()
        self._add(x)

    def seq(self):
        if self.base is not None:
            if self.sym or set.__len__(self):
                raise Unsupported("enumeration of a mixed set")
            return SSeq.of(self.base.seq())
        return SSeq([Items(list(set.__iter__(self)) + list(self.sym))])

    def __iter__(self):
        if self.base is not None:
            raise Unsupported("native iteration over an abstract set")
        return iter(list(set.__iter__(self)) + list(self.sym))

    def __len__(self):
        if self.base is not None:
            raise Unsupported("len of an abstract set")
        return set.__len__(self) + len(self.sym)

    def length(self):
        if self.base is None:
            return len(self)
        raise Unsupported("size of an abstract set")

    def __bool__(self):
        if self.base is not None:
            return bool(self.seq().nonempty())
        return len(self) > 0

    def update(self, *its):
        self._w()
        from . import rt
        for it in its:
            s = rt.toseq(it)
            if not s.native():
                if self.base is None and not len(self):
                    self.base = SeqMembers(s)
                    continue
                raise Unsupported("set.update with a symbolic sequence")
            for x in s.items():
                self._add(x)

    def _alg(self, o, f, en):
        r = PSet()
        if core.CUR is not None:
            core.CUR.newobj(r)
        if not isinstance(o, (set, frozenset)):
            o = PSet(o)
        if self.base is None and not (isinstance(o, PSet) and o.base is not None):
            for x in en(self, o):
                PSet._add(r, x)
            return r
        r.base = SetAlg(self, o, f)
        return r

    def difference(self, o):
        return self._alg(o, lambda a, b: (a, not_(b)), lambda s, t: [x for x in s if not member(t, x)])
    __sub__ = difference

    def intersection(self, o):
        return self._alg(o, lambda a, b: (a, b), lambda s, t: [x for x in s if member(t, x)])
    __and__ = intersection

    def union(self, *os):
        r = self
        for o in os:
            r = r._alg(o, None, lambda s, t: list(s) + list(t))
        return r

    def __or__(self, o):
        return self.union(o)

    def discard(self, x):
        self._w()
        if self.plain() and concrete(x):
            set.discard(self, x)
        else:
            self._without(x)

    def remove(self, x):
        self._w()
        if self.plain() and concrete(x):
            set.remove(self, x)
        elif not self.has(x):
            raise KeyError(x)
        else:
            self._without(x)

    def _without(self, x):
        if self.base is None:
            from . import rt
            left = [y for y in self if not rt.eqf(y, x)]
            set.clear(self)
            self.sym = tuple(left)
            return
        r = PSet()
        r.base, r.sym = self.base, self.sym
        set.update(r, set.__iter__(self))
        set.clear(self)
        self.sym, self.base = (), SetAlg(r, PSet([x]), lambda a, b: (a, not_(b)))

    def __eq__(self, o):
        if self.plain():
            return set.__eq__(self, o)
        raise Unsupported("equality of symbolic sets")

    def __ne__(self, o):
        return not_(self.__eq__(o))
    __hash__ = None

    def pv_save(self):
        return (set(set.__iter__(self)), self.sym, self.base)

    def pv_restore(self, s):
        set.clear(self)
        set.update(self, s[0])
        self.sym, self.base = s[1], s[2]


def member(s, x):
    if isinstance(s, PSet):
        return s.has(x)
    return x in s


class SeqMembers:
    """the set of the elements of a sequence, enumerated in the order of their first occurrences"""
    def __init__(self, s):
        self.s = s
        self.first = None

    def has(self, x):
        from . import rt
        return rt.contains(self.s, x)

    def seq(self):
        if self.first is None:
            from . import rt
            s = self.s
            if len(s.segs) == 1 and isinstance(s.segs[0], FS):
                f = s.segs[0]
                if f.pos:
                    self.first = SSeq([FM(f.n, lambda k: SSeq([Items([f.get(k)] if mkint(f.pos(f.get(k))) == k else [])]))])
                else:
                    self.first = SSeq([FM(f.n, lambda k: SSeq([Items([] if rt.exists(k, lambda j: rt.eqf(f.get(j), f.get(k))) else [f.get(k)])]))])
            else:
                raise Unsupported("enumeration of a set")
        return self.first


class SetAlg:
    def __init__(self, a, b, f):
        self.a, self.b, self.f = a, b, f

    def has(self, x):
        if self.f is None:
            return member(self.a, x) or member(self.b, x)
        x1, x2 = self.f(None, None) if False else (None, None)
        inb = self.f(True, True)[1]
        return member(self.a, x) and (member(self.b, x) == bool(inb))

    def seq(self):
        if self.f is None:
            a = self.a.seq() if isinstance(self.a, PSet) else SSeq.of(self.a)
            b = self.b.seq() if isinstance(self.b, PSet) else SSeq.of(self.b)
            return a.cat(b.flatmap(lambda x: SSeq([Items([] if member(self.a, x) else [x])])))
        inb = bool(self.f(True, True)[1])
        return self.a.seq().flatmap(lambda x: SSeq([Items([x] if member(self.b, x) == inb else [])]))


_WORD = {}


class Word:
    """an unsigned input word; each bit is case-split when it is first looked at (bits of an input are independent)"""
    def __init__(self, name, n, term, bits=None, off=0, mask=None):
        self.name, self.n, self.t = name, n, term
        self.bits = {} if bits is None else bits

    def bit(self, k):
        if k >= self.n:
            return 0
        if k not in self.bits:
            p = core.cur()
            b = p.choose(2)
            self.bits[k] = b
            key = (self.name, k, b)
            if key not in _WORD:
                _WORD[key] = (self.t / (1 << k)) % 2 == b
            p.assume(_WORD[key])
        return self.bits[k]

    def __int__(self):
        return sum(self.bit(k) << k for k in range(self.n))
    __index__ = __int__

    def __hash__(self):
        return hash(int(self))

    def __and__(self, o):
        if isinstance(o, Word):
            o = int(o)
        if not isinstance(o, int):
            return NotImplemented
        if o < 0:
            return int(self) & o
        return sum(self.bit(k) << k for k in range(self.n) if (o >> k) & 1)
    __rand__ = __and__

    def __bool__(self):
        return int(self) != 0

    def __rshift__(self, k):
        return int(self) >> k


def _word(op):
    def f(self, *a):
        return getattr(int, op)(int(self), *[int(x) if isinstance(x, Word) else x for x in a])
    return f


for _op in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__mod__", "__floordiv__", "__or__", "__ror__", "__xor__",
            "__rxor__", "__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__", "__invert__", "__lshift__", "__neg__", "bit_length",
            "__format__", "__str__", "__repr__"):
    setattr(Word, _op, _word(_op))
