"""Symbolic values and l-values used by the executor."""
import z3

I = z3.IntSort()
B = z3.BoolSort()
SEQ = z3.SeqSort(I)
ARR = z3.ArraySort(I, I)
FLT = z3.DeclareSort("Flt")
OPQ = z3.DeclareSort("Opaque")


class Unsupported(Exception):
    """The construct is outside the subset this verifier translates."""


def simp(t):
    return z3.simplify(t)


def is_const_int(t):
    return z3.is_int_value(t)


def ival(t):
    return t.as_long()


def iv(n):
    return z3.IntVal(n)


class Rec:
    __slots__ = ("cls", "f")

    def __init__(self, cls, f):
        self.cls = cls
        self.f = f

    def with_(self, k, v):
        g = dict(self.f)
        g[k] = v
        return Rec(self.cls, g)

    def __repr__(self):
        return "%s%r" % (self.cls, self.f)


class Opt:
    """std::optional / llvm::Expected-like: has + val (val meaningful iff has)."""
    __slots__ = ("has", "val", "et", "kind")

    def __init__(self, has, val, et=None, kind="optional"):
        self.has = has; self.val = val; self.et = et; self.kind = kind

    def __repr__(self):
        return "Opt(%s,%r)" % (self.has, self.val)


class Str:
    """A string value or view: base + offset + length.
    base: ('lit', bytes) | ('uf', name, z3 function Int->Int) | ('seq', z3 Seq term) | ('arr', z3 Array Int->Int)"""
    __slots__ = ("base", "off", "len")

    def __init__(self, base, off, ln):
        self.base = base; self.off = off; self.len = ln

    @staticmethod
    def lit(b):
        return Str(("lit", bytes(b)), iv(0), iv(len(b)))

    @staticmethod
    def seq(t):
        return Str(("seq", t), iv(0), simp(z3.Length(t)))

    def at(self, i):
        k = simp(self.off + i)
        if self.base[0] == "lit":
            b = self.base[1]
            if is_const_int(k):
                n = ival(k)
                if 0 <= n < len(b):
                    c = b[n]
                    return iv(c - 256 if c > 127 else c)
                return iv(0)
            r = iv(0)
            for n in range(len(b) - 1, -1, -1):
                c = b[n]
                r = z3.If(k == n, iv(c - 256 if c > 127 else c), r)
            return r
        if self.base[0] == "uf":
            return self.base[2](k)
        if self.base[0] == "arr":
            return simp(z3.Select(self.base[1], k))
        return self.base[1][k]

    def arr(self):
        """the same string over an array, or None"""
        if self.base[0] == "arr":
            return self
        if self.base[0] == "lit" and len(self.base[1]) <= 64:
            a = z3.K(I, iv(0))
            for i, x in enumerate(self.base[1]):
                a = z3.Store(a, i, iv(x - 256 if x > 127 else x))
            return Str(("arr", a), self.off, self.len)
        return None

    def concrete(self):
        if self.base[0] == "lit" and is_const_int(simp(self.off)) and is_const_int(simp(self.len)):
            o = ival(simp(self.off)); n = ival(simp(self.len))
            return self.base[1][o:o + n]
        return None

    def __repr__(self):
        c = self.concrete()
        if c is not None:
            return "Str(%r)" % c
        return "Str(%s,%s,%s)" % (self.base[0] if self.base[0] != "seq" else self.base[1], self.off, self.len)


class Vec:
    """Sequence container: length + one z3 array per element leaf."""
    __slots__ = ("len", "data", "et", "q")

    def __init__(self, ln, data, et, q="std::vector"):
        self.len = ln; self.data = data; self.et = et; self.q = q

    def __repr__(self):
        return "Vec(len=%s)" % self.len


class Map:
    """Associative container keyed by a single leaf: membership + value leaves."""
    __slots__ = ("has", "data", "kt", "et", "q", "size")

    def __init__(self, has, data, kt, et, q, size=None):
        self.has = has; self.data = data; self.kt = kt; self.et = et; self.q = q; self.size = size


class It:
    """Iterator / pointer into a container or string."""
    __slots__ = ("cont", "idx", "lv")

    def __init__(self, cont, idx, lv=None):
        self.cont = cont; self.idx = idx; self.lv = lv

    step = 1

    def new(self, idx):
        return type(self)(self.cont, idx, self.lv)

    def pos(self):
        """index of the element pointed at"""
        return self.idx

    def plus(self, n):
        return self.new(self.idx + n)


class RIt(It):
    """Reverse iterator: idx is the index of its base"""
    __slots__ = ()
    step = -1

    def pos(self):
        return self.idx - 1

    def plus(self, n):
        return self.new(self.idx - n)


class MIt:
    """Iterator into an associative container: key + validity."""
    __slots__ = ("lv", "key", "end")

    def __init__(self, lv, key, end):
        self.lv = lv; self.key = key; self.end = end


class Ptr:
    """Pointer to a (non-heap) location; lv None is null."""
    __slots__ = ("lv",)

    def __init__(self, lv):
        self.lv = lv


class Clo:
    __slots__ = ("node", "env", "this", "fnkey", "lamid")

    def __init__(self, node, env, this, lamid):
        self.node = node; self.env = env; self.this = this; self.lamid = lamid


class FnRef:
    __slots__ = ("fn", "q", "node")

    def __init__(self, node):
        self.node = node; self.fn = node.get("fn"); self.q = node.get("q")


class Unit:
    def __repr__(self):
        return "()"


UNIT = Unit()


class LV:
    __slots__ = ("root", "path", "t")

    def __init__(self, root, path=(), t=None):
        self.root = root; self.path = path; self.t = t

    def field(self, name, t=None):
        return LV(self.root, self.path + (("f", name),), t)

    def optval(self, t=None):
        return LV(self.root, self.path + (("o",),), t)

    def index(self, i, t=None):
        return LV(self.root, self.path + (("i", i),), t)

    def mapval(self, k, t=None):
        return LV(self.root, self.path + (("m", k),), t)

    def __repr__(self):
        return "LV(%s%s)" % (self.root, "".join("." + str(p[-1]) for p in self.path))


class HLV:
    """l-value in a heap object identified by an integer reference."""
    __slots__ = ("ref", "cls", "path", "t")

    def __init__(self, ref, cls, path=(), t=None):
        self.ref = ref; self.cls = cls; self.path = path; self.t = t

    def __repr__(self):
        return "HLV(%s:%s%s)" % (self.ref, self.cls, "".join("." + p for p in self.path))
