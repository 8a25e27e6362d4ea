"""Concrete inputs for contracts: random, replayed, or read from a counter-model."""
import random
from .api import Reject


class Source:
    def gen(self, key, gen, default):
        return default()


class RandomSource(Source):
    def __init__(self, rng):
        self.r = rng

    def gen(self, key, gen, default):
        if gen is not None and self.r.random() < 0.9:
            return gen(self.r)
        return default()

    def int(self, key, lo, hi):
        r = self.r
        if lo is None and hi is None:
            return r.choice([0, 1, -1, 2, 5, 127, 128, 255, 256, r.randrange(-300, 300)])
        if hi is None:
            return lo + r.choice([0, 0, 1, 1, 2, 3, 4, 7, r.randrange(0, 40)])
        if lo is None:
            return hi - r.choice([0, 0, 1, 2, 5])
        k = r.random()
        if k < 0.25:
            return r.choice([lo, hi, min(lo + 1, hi), max(hi - 1, lo)])
        if k < 0.6:
            return min(hi, lo + r.randrange(0, 9))
        return r.randint(lo, hi)

    def len(self, key, lo, hi):
        r = self.r
        n = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, r.randrange(0, 12)])
        n = max(lo or 0, n)
        return n if hi is None else min(n, hi)

    def bool(self, key):
        return self.r.random() < 0.5

    def str(self, key, alpha, lo, hi):
        r = self.r
        n = r.choice([0, 1, 2, 3, 4, 6, 10, r.randrange(0, 30)])
        if hi is not None and r.random() < 0.2:
            n = hi
        n = max(lo, n)
        if hi is not None:
            n = min(n, hi)
        return "".join(r.choice(alpha) for _ in range(n))

    def bytes(self, key, lo, hi):
        r = self.r
        n = max(lo, r.choice([0, 1, 2, 3, 4, 5, 8, r.randrange(0, 40)]))
        if hi is not None:
            n = min(n, hi)
        return bytes(r.choice([0, 0, 1, 255, 128, 127, r.randrange(256)]) for _ in range(n))

    def choice(self, key, n):
        return self.r.randrange(n)


class DictSource(Source):
    """replay of a recorded input"""
    def __init__(self, d):
        self.d = d

    def get(self, key, default):
        if key in self.d:
            v = self.d[key]
            if isinstance(v, dict) and "hex" in v:
                return bytes.fromhex(v["hex"])
            return v
        return default

    def int(self, key, lo, hi):
        return self.get(key, lo if lo is not None else 0)
    len = int

    def bool(self, key):
        return self.get(key, False)

    def str(self, key, alpha, lo, hi):
        return self.get(key, alpha[0] * lo)

    def bytes(self, key, lo, hi):
        return self.get(key, b"\0" * lo)

    def choice(self, key, n):
        return self.get(key, 0) % n


TEXT = "abcXYZ019 _-./$;:[L(){}*?é漢\t"


class World:
    sym = False

    def __init__(self, source):
        self.s = source
        self.idx = []
        self.pre = ""
        self.rec = {}

    def key(self, name):
        return self.pre + name + "".join("[%s]" % k for k in self.idx)

    def _draw(self, name, f):
        k = self.key(name)
        if k not in self.rec:
            v = f(k)
            self.rec[k] = {"hex": v.hex()} if isinstance(v, bytes) else v
            return v
        v = self.rec[k]
        return bytes.fromhex(v["hex"]) if isinstance(v, dict) else v

    def int(self, name, lo=None, hi=None):
        v = self._draw(name, lambda k: self.s.int(k, lo, hi))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Reject(name)
        return v

    def len(self, name, lo=0, hi=None):
        v = self._draw(name, lambda k: self.s.len(k, lo, hi))
        if v < lo or (hi is not None and v > hi):
            raise Reject(name)
        return v

    def nat(self, name, hi=None):
        return self.int(name, 0, hi)

    def u1(self, name):
        return self.int(name, 0, 255)

    def u2(self, name):
        return self.int(name, 0, 65535)

    def u4(self, name):
        return self.int(name, 0, 2 ** 32 - 1)

    def word(self, name, n=16):
        return self.int(name, 0, 2 ** n - 1)

    def bool(self, name):
        return bool(self._draw(name, lambda k: self.s.bool(k)))

    def str(self, name, alpha=TEXT, lo=0, hi=None, gen=None):
        return self._draw(name, lambda k: self.s.gen(k, gen, lambda: self.s.str(k, alpha, lo, hi)))

    def bstr(self, name, alpha=TEXT, lo=0, hi=None):
        return self.str(name, alpha, lo, hi).encode("utf8")

    def bytes(self, name, lo=0, hi=None, gen=None):
        return self._draw(name, lambda k: self.s.gen(k, gen, lambda: self.s.bytes(k, lo, hi)))

    def opaque(self, name, small=3):
        """some value; concretely one of a few distinct ones"""
        return Opq(self._draw(name, lambda k: self.s.int(k, 0, small)))

    def choice(self, name, opts):
        return opts[self._draw(name, lambda k: self.s.choice(k, len(opts)))]

    def seq(self, name, elem, lo=0, hi=None, kind=tuple):
        n = self.len(name + ".n", lo, hi)
        if n > 3000:
            raise Reject(name)
        out = []
        pre = self.pre
        for k in range(n):
            self.idx.append(k)
            self.pre = pre + name + "."
            try:
                out.append(elem(self, k))
            finally:
                self.idx.pop()
                self.pre = pre
        return kind(out)

    def names(self, name, lo=0, gen=None):
        return self.seq(name, lambda w, k: w.str("text", lo=lo, gen=gen))

    def require(self, cond):
        if not cond:
            raise Reject("precondition")

    def absmap(self, name, val, has=None):
        """an arbitrary mapping from keys (ints/strings/opaque) to values, drawn on demand"""
        return ConcMap(self, name, val, has)

    def fn(self, name, args, kind="bool"):
        """an arbitrary function of these arguments (ints, strings, bools)"""
        k = name + "(" + ",".join(repr(a) for a in args) + ")"
        save, self.idx, self.pre = (self.idx, self.pre), [], ""
        try:
            if kind == "bool":
                return self.bool(k)
            if kind == "int":
                return self.int(k, 0, 5)
            if kind == "opaque":
                return self.opaque(k)
            return self.str(k)
        finally:
            self.idx, self.pre = save


class Opq:
    """an opaque value, equal only to itself"""
    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Opq) and o.v == self.v

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(("opq", self.v))

    def __repr__(self):
        return "<value %r>" % (self.v,)


def kindname(x):
    if isinstance(x, bool):
        return "bool"
    if isinstance(x, int):
        return "int"
    if isinstance(x, tuple):
        return "tuple"
    if isinstance(x, list):
        return "list"
    if isinstance(x, dict):
        return "dict"
    if isinstance(x, (bytes, bytearray, memoryview)):
        return "bytes"
    return type(x).__name__


def diff(a, b, where=""):
    """'' if the values agree, else where and how they differ; a is what the code gave"""
    if hasattr(a, "__next__"):
        a = tuple(a)
    if hasattr(b, "__next__"):
        b = tuple(b)
    ka, kb = kindname(a), kindname(b)
    if ka != kb:
        return "%s: got %r, expected %r" % (where, a, b)
    if ka in ("tuple", "list"):
        if len(a) != len(b):
            return "%s: got %d items %r, expected %d items %r" % (where, len(a), a, len(b), b)
        for k, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, "%s[%d]" % (where, k))
            if d:
                return d
        return ""
    if ka == "dict":
        if list(a.keys()) != list(b.keys()) and set(a) != set(b):
            return "%s: got keys %r, expected %r" % (where, list(a), list(b))
        for k in a:
            d = diff(a[k], b[k], "%s[%r]" % (where, k))
            if d:
                return d
        return ""
    if ka == "bytes":
        return "" if bytes(a) == bytes(b) else "%s: got %r, expected %r" % (where, bytes(a), bytes(b))
    if ka == "float":
        import struct
        # one NaN is as good as another
        return "" if struct.pack(">d", a) == struct.pack(">d", b) or a != a and b != b else "%s: got %r, expected %r" % (where, a, b)
    if a is b or a == b:
        return ""
    return "%s: got %r, expected %r" % (where, a, b)
