"""Contracts for the text functions of lspserver (nixd/lspserver/src/SourceCode.cpp).

A text is a byte sequence t; every specification function takes t and absolute
byte positions, so a StringRef is (t, off, len)."""
import z3
from .vals import *
from .exec import Contract, Ctx, BIG
from .driver import Spec
from .lib import Models, NPOS
from .smt import SpecFun

MAXTEXT = 1 << 31


def B_(t, i):
    """unsigned value of byte i"""
    return z3.If(t[i] < 0, t[i] + 256, t[i])


def step(t, i):
    """bytes of the code point whose lead byte is at i (a byte that leads nothing counts as one)"""
    c = t[i]
    return z3.If(c >= 0, 1, z3.If(z3.And(c >= -64, c < -32), 2, z3.If(z3.And(c >= -32, c < -16), 3, z3.If(z3.And(c >= -16, c < -8), 4, 1))))


def units16(t, i):
    return z3.If(z3.And(t[i] >= -16, t[i] < -8), 2, 1)


def units32(t, i):
    return iv(1)


def mk_len(name, w):
    f = SpecFun(name, [ARR, I, I], I)
    f.body = lambda t, a, e: [f(t, a, e) >= 0, z3.Implies(a < e, f(t, a, e) >= 1), f(t, a, e) <= z3.If(a >= e, 0, 2 * (e - a)),
                              f(t, a, e) == z3.If(a >= e, 0, w(t, a) + f(t, a + step(t, a), e))]
    return f


def mk_walk(name, w):
    """(position, units left) after walking code points from a until u units are consumed or the end e is reached"""
    p = SpecFun(name + "_pos", [ARR, I, I, I], I)
    u_ = SpecFun(name + "_left", [ARR, I, I, I], I)
    stop = lambda t, a, e, u: z3.Or(a >= e, u <= 0)
    p.body = lambda t, a, e, u: [p(t, a, e, u) >= a, z3.Implies(a <= e + 3, p(t, a, e, u) <= e + 3), p(t, a, e, u) == z3.If(stop(t, a, e, u), a, p(t, a + step(t, a), e, u - w(t, a)))]
    u_.body = lambda t, a, e, u: [u_(t, a, e, u) <= u, z3.Implies(u >= -1, u_(t, a, e, u) >= -1), u_(t, a, e, u) == z3.If(stop(t, a, e, u), u, u_(t, a + step(t, a), e, u - w(t, a)))]
    return p, u_


len16, len32 = mk_len("len16", units16), mk_len("len32", units32)
pos16, left16 = mk_walk("walk16", units16)
pos32, left32 = mk_walk("walk32", units32)

# first line feed in [a,e), or e
nl = SpecFun("nl", [ARR, I, I], I)
nl.body = lambda t, a, e: [nl(t, a, e) >= a, z3.Implies(a <= e, nl(t, a, e) <= e), z3.Implies(z3.And(a <= e, nl(t, a, e) < e), t[nl(t, a, e)] == 10),
                           nl(t, a, e) == z3.If(a >= e, a, z3.If(t[a] == 10, a, nl(t, a + 1, e)))]
# number of line feeds in [a,o) and start of the line of o
nline = SpecFun("nline", [ARR, I, I], I)
nline.body = lambda t, a, o: [nline(t, a, o) >= 0, nline(t, a, o) <= z3.If(o <= a, 0, o - a), nline(t, a, o) == z3.If(o <= a, 0, nline(t, a, o - 1) + z3.If(t[o - 1] == 10, 1, 0))]
bol = SpecFun("bol", [ARR, I, I], I)
bol.body = lambda t, a, o: [z3.Implies(o >= a, z3.And(bol(t, a, o) >= a, bol(t, a, o) <= o)), bol(t, a, o) == z3.If(o <= a, a, z3.If(t[o - 1] == 10, o, bol(t, a, o - 1)))]
# start of the k-th line after the one that starts at a, e + 1 when there is none
lstart = SpecFun("lstart", [ARR, I, I, I], I)
lstart.body = lambda t, a, e, k: [z3.Implies(z3.And(a >= 0, a <= e), z3.And(lstart(t, a, e, k) >= a, lstart(t, a, e, k) <= e + 1)),
                                  lstart(t, a, e, k) == z3.If(k <= 0, a, z3.If(nl(t, a, e) >= e, e + 1, lstart(t, nl(t, a, e) + 1, e, k - 1)))]
# is o reached by walking code points from a
reach = SpecFun("reach", [ARR, I, I], B)
reach.body = lambda t, a, o: [reach(t, a, o) == z3.If(a >= o, a == o, reach(t, a + step(t, a), o))]


def parts(ex, s):
    """(t, off, end) of a string value"""
    s = s.arr()
    if s is None:
        raise Unsupported("a text that is not an array of bytes")
    return s.base[1], s.off, simp(s.off + s.len)


class TextModels(Models):
    def m_string(self, ex, e, st, o, av):
        n = e["name"]
        if n == "count" and len(av) == 1 and e.get("clsq") != "llvm::StringRef":
            return None
        if n in ("find", "rfind", "count") and len(av) in (1, 2):
            c = self.val(ex, av[0], st)
            if z3.is_expr(c) and simp(c).eq(iv(10)):
                v = ex.load(o, st)
                t, a, end = parts(ex, v)
                if n == "find":
                    p = simp(a + (self.val(ex, av[1], st) if len(av) > 1 else iv(0)))
                    r = nl(t, p, end)
                    return [(simp(z3.If(z3.And(p < end, r < end), r - a, iv(NPOS))), st)]
                if len(av) == 1 or simp(self.val(ex, av[1], st)).eq(iv(NPOS)):
                    if n == "count":
                        return [(nline(t, a, end), st)]
                    return [(z3.If(bol(t, a, end) > a, bol(t, a, end) - a - 1, iv(NPOS)), st)]
        if n == "take_until" and len(av) == 1:
            v = ex.load(o, st)
            t, a, end = parts(ex, v)
            f = self.val(ex, av[0], st)
            # the predicate, applied to an arbitrary byte, must be "is a line feed"
            c = ex.const("tu", I)
            s2 = st.fork()
            s2.assume(z3.And(c >= -128, c <= 127))
            rs = ex.call_value(f, {"line": e.get("line"), "args": [], "t": None}, [c], s2) if f is not None else None
            if rs is None or not all(z3.is_expr(x) and ex.provable(s, x == (c == 10)) for x, s in rs):
                raise Unsupported("take_until with another predicate than 'is a line feed'")
            return [(Str(v.base, v.off, simp(nl(t, a, end) - a)), st)]
        return Models.m_string(self, ex, e, st, o, av)

    def free(self, ex, e, st, q, name):
        if q in ("lspserver::elog", "lspserver::log", "lspserver::vlog"):
            return [(UNIT, st)]
        if q in ("lspserver::error", "lspserver::detail::error"):
            return [(Rec("llvm::Error", {"fail": z3.BoolVal(True)}), st)]
        if q == "llvm::consumeError":
            return [(UNIT, s) for av, s in ex.args_for(e, st)]
        if q == "llvm::count":
            out = []
            for av, s in ex.args_for(e, st):
                c = self.val(ex, av[1], s)
                if not simp(c).eq(iv(10)):
                    return None
                t, a, end = parts(ex, self.tostr(ex, av[0], s))
                out.append((nline(t, a, end), s))
            return out
        return Models.free(self, ex, e, st, q, name)


class TextSpec(Spec):
    assumptions = ["texts are shorter than 2^31 bytes (line and column numbers are C ints)"]

    def build_hook(self, ex, T, mk, path, st):
        if T.k == "rec" and T.q == "llvm::StringRef":
            t, o, n = mk(path, ARR), mk(path + ".off", I), mk(path + ".len", I)
            if st is not None:
                st.assume(z3.And(o >= 0, n >= 0, o + n < MAXTEXT))
            return Str(("arr", t), o, n)
        if T.k == "rec" and T.q in ("std::basic_string", "std::__cxx11::basic_string"):
            t, n = mk(path, ARR), mk(path + ".len", I)
            if st is not None:
                st.assume(z3.And(n >= 0, n < MAXTEXT - 2))
            return Str(("arr", t), iv(0), n)
        return None

    def texts(self, ex, st):
        out = []
        for r, v in st.store.items():
            if isinstance(v, Str) and v.base[0] == "arr":
                out.append((r, v))
        return out

    def loop_candidates(self, ex, s, entry, mod, roots):
        out = []
        el = ex.state_leaves(entry, roots)
        ints = [k for k in mod if k in el and z3.is_expr(el[k]) and el[k].sort() == I and k[0] not in ("heap", "ghost")]
        ints.sort(key=str)
        consts = [k for k in el if k not in mod and k[0] not in ("heap", "ghost") and z3.is_expr(el[k]) and el[k].sort() == I]
        for k in ints:
            out.append(("%s > 0" % ex.leafname(k), lambda st, k=k: ex.leaf_get(st, k) > 0))
        for r, v in self.texts(ex, entry):
            if any(k[0] == r for k in mod):
                continue
            t, a, e = parts(ex, v)
            nm = ex.locname.get(r) or "t"
            for k in ints:
                out.append(("%s <= |%s|+3" % (ex.leafname(k), nm), lambda st, k=k, a=a, e=e: a + ex.leaf_get(st, k) <= e + 3))
                out.append(("%s <= |%s|" % (ex.leafname(k), nm), lambda st, k=k, a=a, e=e: a + ex.leaf_get(st, k) <= e))
                for k2 in ints:
                    if k2 == k:
                        continue
                    out.append(("%s <= %s" % (ex.leafname(k), ex.leafname(k2)), lambda st, k=k, k2=k2: ex.leaf_get(st, k) <= ex.leaf_get(st, k2)))
                    for L in (len16, len32):
                        out.append(("%s(%s from %s) + %s unchanged" % (L.name, nm, ex.leafname(k), ex.leafname(k2)),
                                    lambda st, k=k, k2=k2, L=L, t=t, a=a, e=e: L(t, a + ex.leaf_get(st, k), e) + ex.leaf_get(st, k2) == L(t, a + el[k], e) + el[k2]))
                    for P in (pos16, left16, pos32, left32):
                        out.append(("%s(%s, %s, %s) unchanged" % (P.name, nm, ex.leafname(k), ex.leafname(k2)),
                                    lambda st, k=k, k2=k2, P=P, t=t, a=a, e=e: P(t, a + ex.leaf_get(st, k), e, ex.leaf_get(st, k2)) == P(t, a + el[k], e, el[k2])))
                    for kc in consts[-6:]:
                        c = el[kc]
                        out.append(("lstart(%s, %s, %s - %s) unchanged" % (nm, ex.leafname(k), ex.leafname(kc), ex.leafname(k2)),
                                    lambda st, k=k, k2=k2, c=c, t=t, a=a, e=e: lstart(t, a + ex.leaf_get(st, k), e, c - ex.leaf_get(st, k2)) == lstart(t, a + el[k], e, c - el[k2])))
        return out

    def measures(self, ex, entry, mod, roots):
        el = ex.state_leaves(entry, roots)
        out = []
        for r, v in self.texts(ex, entry):
            t, a, e = parts(ex, v)
            for k in mod:
                if k in el and z3.is_expr(el[k]) and el[k].sort() == I and k[0] not in ("heap", "ghost"):
                    out.append(("|text| - %s" % ex.leafname(k), lambda st, k=k, a=a, e=e: e - a + 4 - ex.leaf_get(st, k)))
        return out


def zmin(a, b): return z3.If(a <= b, a, b)


class LspLength(Contract):
    q = "lspserver::lspLength"

    def ensures(self, c):
        t, a, e = parts(c.ex, c.oldarg(0))
        return [("the UTF-16 length of the text", c.ret == len16(t, a, e), ("P15",))]


class MeasureUnits(Contract):
    q = "lspserver::measureUnits"

    def enc(self, c, n):
        return c.ex.db.enums["lspserver::OffsetEncoding"][n]

    def requires(self, c):
        return [("a known encoding", z3.Or(*[c.arg(2) == self.enc(c, n) for n in ("UTF8", "UTF16", "UTF32")]), ("safety",))]

    def modifies(self, c):
        return [c.args[3]]

    def ensures(self, c):
        t, a, e = parts(c.ex, c.oldarg(0))
        u, enc = c.oldarg(1), c.oldarg(2)
        valid = c.ex.load(c.args[3], c.st)
        n = e - a
        r = c.ret
        is8, is16, is32 = (enc == self.enc(c, x) for x in ("UTF8", "UTF16", "UTF32"))
        end = lambda p: zmin(p(t, a, e, u) - a, n)
        return [("inside the text", z3.And(r >= 0, r <= n), ("P15",)),
                ("a negative number of units is invalid", z3.Implies(u < 0, z3.And(z3.Not(valid), r == 0)), ("P15",)),
                ("UTF-8: that many bytes", z3.Implies(z3.And(is8, u >= 0), z3.And(r == zmin(u, n), valid == (u <= n))), ("P15",)),
                ("UTF-16: the end of the code point that holds the last unit", z3.Implies(z3.And(is16, u >= 0), r == end(pos16)), ("P15",)),
                ("UTF-16: valid when the units end a code point of the text", z3.Implies(z3.And(is16, u >= 0), valid == z3.And(left16(t, a, e, u) == 0, pos16(t, a, e, u) <= e)), ("P15",)),
                ("UTF-32: the end of the last code point", z3.Implies(z3.And(is32, u >= 0), r == end(pos32)), ("P15",)),
                ("UTF-32: valid when there are that many code points", z3.Implies(z3.And(is32, u >= 0), valid == z3.And(left32(t, a, e, u) == 0, pos32(t, a, e, u) <= e)), ("P15",))]


def posspec(t, a, e, line, ch, allow):
    """(is an error, absolute offset) of a position in the text"""
    ls = lstart(t, a, e, line)
    eol = nl(t, ls, e)
    off = zmin(pos16(t, ls, eol, ch), eol)
    okcol = z3.Or(ch == 0, z3.And(left16(t, ls, eol, ch) == 0, pos16(t, ls, eol, ch) <= eol))
    err = z3.Or(line < 0, ch < 0, ls > e, z3.And(z3.Not(okcol), z3.Not(allow)))
    return err, off


class PositionToOffset(Contract):
    q = "lspserver::positionToOffset"

    def ensures(self, c):
        t, a, e = parts(c.ex, c.oldarg(0))
        p = c.oldarg(1)
        r = c.ret
        err, off = posspec(t, a, e, p.f["line"], p.f["character"], c.oldarg(2))
        return [("an error exactly when the position is not in the text", r.has == z3.Not(err), ("P15", "P16")),
                ("the byte offset of the position", z3.Implies(r.has, a + r.val == off), ("P15", "P16")),
                ("inside the text", z3.Implies(r.has, z3.And(r.val >= 0, r.val <= e - a)), ("P15", "P16"))]


class OffsetToPosition(Contract):
    q = "lspserver::offsetToPosition"

    def ensures(self, c):
        t, a, e = parts(c.ex, c.oldarg(0))
        o = a + zmin(c.oldarg(1), e - a)
        r = c.ret
        return [("line is the number of line feeds before", r.f["line"] == nline(t, a, o), ("P15",)),
                ("character is the UTF-16 length of the line before", r.f["character"] == len16(t, bol(t, a, o), o), ("P15",))]


class ApplyChange(Contract):
    q = "lspserver::applyChange"

    def modifies(self, c):
        return [c.args[0]]

    def ensures(self, c):
        A, n0 = c.oldarg(0).base[1], c.oldarg(0).len
        ch = c.oldarg(1)
        rng, rl, X = ch.f["range"], ch.f["rangeLength"], ch.f["text"]
        C = c.arg(0)
        Ca = C.arr()
        k = c.ex.const("k", I)
        fail = c.ret.f["fail"]

        def where(A, n, p):
            """(error, offset, array, length): a position just behind a last line without a line feed adds one"""
            err, off = posspec(A, iv(0), n, p.f["line"], p.f["character"], z3.BoolVal(False))
            inf = z3.And(err, z3.Or(n == 0, A[n - 1] != 10), p.f["character"] == 0, p.f["line"] == nline(A, iv(0), n) + 1)
            return z3.And(err, z3.Not(inf)), z3.If(inf, n + 1, off), z3.If(inf, z3.Store(A, n, iv(10)), A), z3.If(inf, n + 1, n)
        e1, s, A1, n1 = where(A, n0, rng.val.f["start"])
        e2, e, A2, n2 = where(A1, n1, rng.val.f["end"])
        bad = z3.And(rng.has, z3.Or(e1, e2, e < s, z3.And(rl.has, rl.val != len16(A2, s, e))))
        at = lambda i: Ca.base[1][Ca.off + i]
        xat = lambda i: X.base[1][X.off + i]
        edit = z3.And(rng.has, z3.Not(bad))
        m = X.len
        return [("rejected exactly when the range is not in the text, reversed, or not of the stated length", fail == bad, ("P16",)),
                ("a rejected change leaves the text as it was", z3.Implies(bad, z3.And(C.len == n0, z3.Implies(z3.And(0 <= k, k < n0), at(k) == A[k]))), ("P16",)),
                ("a change without a range replaces the text", z3.Implies(z3.Not(rng.has), z3.And(C.len == m, z3.Implies(z3.And(0 <= k, k < m), at(k) == xat(k)))), ("P16",)),
                ("the new text has the length of the edit", z3.Implies(edit, C.len == n2 - (e - s) + m), ("P16",)),
                ("the bytes before the range are kept", z3.Implies(z3.And(edit, 0 <= k, k < s), at(k) == A2[k]), ("P16",)),
                ("the range is replaced by the given text", z3.Implies(z3.And(edit, s <= k, k < s + m), at(k) == xat(k - s)), ("P16",)),
                ("the bytes behind the range are kept", z3.Implies(z3.And(edit, s + m <= k, k < C.len), at(k) == A2[k - m + (e - s)]), ("P16",))]


CONTRACTS = [ApplyChange(), LspLength(), MeasureUnits(), PositionToOffset(), OffsetToPosition()]


def contracts():
    return {c.q: c for c in CONTRACTS}
def lemmas():
    """(name, tags, [(obligation, hypotheses, goal)]): inductive consequences of the specification functions that make the contracts state the property"""
    t = z3.Const("t", ARR)
    a, e, o, u, k = z3.Ints("a e o u k")
    out = []
    dom = [0 <= o, o <= e]
    l1 = lambda o: nl(t, bol(t, 0, o), e) == nl(t, o, e)
    out.append(("no line feed stands between the start of a line and a position on it", ("P15",), [
        ("base", [0 <= e], l1(iv(0))),
        ("step", [0 <= o, o < e, l1(o)], l1(o + 1))]))
    l2 = lambda o, k: lstart(t, 0, e, nline(t, 0, o) + k) == lstart(t, bol(t, 0, o), e, k)
    out.append(("line n starts behind the n-th line feed", ("P15",), [
        ("base", [0 <= e, k >= 0], l2(iv(0), k)),
        ("step", [0 <= o, o < e, k >= 0, l1(o), l2(o, k), l2(o, k + 1)], l2(o + 1, k))]))
    l3 = lambda a: z3.Implies(z3.And(a <= o, reach(t, a, o)), z3.And(pos16(t, a, e, len16(t, a, o)) == o, left16(t, a, e, len16(t, a, o)) == 0))
    out.append(("walking the UTF-16 length of a prefix ends at the prefix", ("P15",), [
        ("base", [o <= e, a >= o], l3(a)),
        ("step", [o <= e, a < o, l3(a + step(t, a))], l3(a))]))
    l4 = lambda a, u: z3.Implies(z3.And(a <= e, u > len16(t, a, e)), z3.And(pos16(t, a, e, u) >= e, left16(t, a, e, u) > 0))
    l4b = lambda a, u: z3.Implies(u > len16(t, a, e), z3.And(pos16(t, a, e, u) >= e, left16(t, a, e, u) > 0))
    out.append(("walking more units than there are ends behind the text", ("P15",), [
        ("base", [a >= e], l4b(a, u)),
        ("step", [a < e, l4b(a + step(t, a), u - units16(t, a))], l4b(a, u))]))
    b = bol(t, 0, o)
    err, off = posspec(t, iv(0), e, nline(t, 0, o), len16(t, b, o), z3.BoolVal(False))
    eol = nl(t, b, e)
    l3i = z3.Implies(z3.And(b <= o, reach(t, b, o)), z3.And(pos16(t, b, eol, len16(t, b, o)) == o, left16(t, b, eol, len16(t, b, o)) == 0))
    out.append(("an offset on a character boundary survives the round trip through its position", ("P15",), [
        ("round trip", dom + [reach(t, b, o), l1(o), l2(o, iv(0)), l3i], z3.And(z3.Not(err), off == o))]))
    ln, c = z3.Ints("ln c")
    ls = lstart(t, 0, e, ln)
    err, off = posspec(t, iv(0), e, ln, c, z3.BoolVal(True))
    err2, _ = posspec(t, iv(0), e, ln, c, z3.BoolVal(False))
    le = nl(t, ls, e)
    out.append(("a column behind the end of its line is the end of the line", ("P15",), [
        ("line end", [0 <= e, ln >= 0, ls <= e, c > len16(t, ls, le), l4b_inst(t, ls, le, c)], z3.And(z3.Not(err), off == le, err2)),
        ("errors", [0 <= e, z3.Or(ln < 0, c < 0, ls > e)], z3.And(err, err2))]))
    return out


def l4b_inst(t, a, e, u):
    return z3.Implies(u > len16(t, a, e), z3.And(pos16(t, a, e, u) >= e, left16(t, a, e, u) > 0))


SPECFUNS = [len16, len32, pos16, left16, pos32, left32, nl, nline, bol, lstart]

SPEC, MODELS = TextSpec, TextModels
