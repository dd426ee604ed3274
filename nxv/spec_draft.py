"""Contracts for the draft store (nixd/lspserver/src/DraftStore.cpp).

`increment` is specified byte by byte over the text as an array; the store is
specified over whole texts (sequences), where `incf` stands for the text that
`increment` makes: its byte-wise contract determines length and every byte."""
import z3
from .vals import *
from .exec import Contract, Ctx, BIG, subarr
from .driver import Spec
from .lib import Models, isdigit
from .smt import SpecFun
from .spec_text import parts, zmin, MAXTEXT
from . import smt

K, J = z3.Ints("K!drf J!drf")
OTHER = z3.Const("Other!drf", SEQ)

# digits / nines at the end of t[0,e)
drun = SpecFun("drun", [ARR, I], I)
drun.body = lambda t, e: [drun(t, e) >= 0, drun(t, e) <= z3.If(e <= 0, 0, e), z3.Implies(z3.And(e > 0, drun(t, e) > 0), isdigit(t[e - 1])),
                          drun(t, e) == z3.If(e <= 0, 0, z3.If(isdigit(t[e - 1]), 1 + drun(t, e - 1), 0))]
nrun = SpecFun("nrun", [ARR, I], I)
nrun.body = lambda t, e: [nrun(t, e) >= 0, nrun(t, e) <= drun(t, e), nrun(t, e) == z3.If(e <= 0, 0, z3.If(t[e - 1] == 57, 1 + nrun(t, e - 1), 0))]

incf = z3.Function("increment_of", SEQ, SEQ)
text = z3.Function("text_of", I, SEQ)
dect = z3.Function("decimal_text", I, SEQ)
isnum = z3.Function("is_decimal", SEQ, B)
num = z3.Function("decimal_value", SEQ, I)


def inc_spec(t, n, o, m, k):
    """o[0,m) is the increment of t[0,n), at byte k"""
    d, z = drun(t, n), nrun(t, n)
    keep = z3.And(0 <= k, k < n, k < n - 1 - z)
    return [("without a number at the end a zero is appended", z3.Implies(d == 0, z3.And(m == n + 1, o[n] == 48, z3.Implies(z3.And(0 <= k, k < n), o[k] == t[k])))),
            ("the last digit that is not a nine goes up, the nines behind it become zeros", z3.Implies(z < d, z3.And(m == n, o[n - 1 - z] == t[n - 1 - z] + 1,
                z3.Implies(z3.And(0 <= k, k < n - 1 - z), o[k] == t[k]), z3.Implies(z3.And(n - z <= k, k < n), o[k] == 48)))),
            ("a number of nines gets another digit", z3.Implies(z3.And(d > 0, z == d), z3.And(m == n + 1, o[n - d] == 49, z3.Implies(z3.And(0 <= k, k < n - d), o[k] == t[k]),
                z3.Implies(z3.And(n - d < k, k < m), o[k] == 48))))]


class DraftModels(Models):
    def free(self, ex, e, st, q, name):
        if q in ("lspserver::elog", "lspserver::log", "lspserver::vlog"):
            return [(UNIT, st)]
        if q in ("time", "std::time"):
            out = []
            for av, s in ex.args_for(e, st):
                if isinstance(av[0], Ptr) and av[0].lv is not None:
                    ex.store(av[0].lv, ex.const("time", I), s)
                out.append((ex.const("time", I), s))
            return out
        if q == "std::to_string":
            return [(Str.seq(dect(v)), s) for v, s in ex.rv(e["args"][0], st)]
        if q == "llvm::to_integer":
            out = []
            for av, s in ex.args_for(e, st):
                t = ex.as_seq(self.tostr(ex, av[0], s))
                old = ex.load(av[1], s)
                v = ex.const("parsed", I)
                s.assume(z3.And(v >= -(1 << 63), v < 1 << 63, z3.Implies(isnum(t), v == num(t))))
                ex.store(av[1], v, s)
                if not simp(self.val(ex, av[2], s)).eq(iv(10)):
                    raise Unsupported("another base")
                out.append((isnum(t), s))
            return out
        return Models.free(self, ex, e, st, q, name)

    def m_string(self, ex, e, st, o, av):
        if e["name"] == "compare_numeric":
            return [(ex.const("cmp", I), st)]
        return Models.m_string(self, ex, e, st, o, av)

    def extra_construct(self, ex, e, T, st):
        if T.q in ("std::lock_guard", "std::unique_lock", "std::scoped_lock"):
            return [(Rec(T.n, {}), st)]
        return None


class DraftSpec(Spec):
    assumptions = ["llvm::StringMap is a map from byte strings", "std::to_string and llvm::to_integer are inverse on 64-bit integers",
                   "the text increment makes is determined by its contract (length and every byte), so it is a function of the text",
                   "calls are serialised by the store's mutex (std::lock_guard is taken at its word)"]
    arrstr = False

    def build_hook(self, ex, T, mk, path, st):
        if T.k == "rec" and T.q in ("std::basic_string",) and ex.curfn.endswith("::increment"):
            t, n = mk(path, ARR), mk(path + ".len", I)
            if st is not None:
                st.assume(z3.And(n >= 0, n < MAXTEXT))
            return Str(("arr", t), iv(0), n)
        if T.k == "rec" and T.q == "std::mutex":
            return Rec("std::mutex", {})
        return None

    def on_alloc(self, ex, T, v, ref, st):
        if isinstance(v, Str):
            st.assume(text(ref) == ex.as_seq(v))

    def loop_candidates(self, ex, s, entry, mod, roots):
        out = []
        strs = [(r, v) for r, v in entry.store.items() if isinstance(v, Str) and v.base[0] == "arr" and (r, ".$base") in mod]
        for r, v in strs:
            t, n = v.base[1], v.len
            for q, w in entry.store.items():
                if isinstance(w, It) and any(k[0] == q for k in mod):
                    p = lambda st, q=q: st.store[q].idx
                    nm = ex.locname.get(q) or "it"
                    out.append(("%s within the text" % nm, lambda st, p=p, n=n: z3.And(0 <= p(st), p(st) <= n)))
                    out.append(("%s: nines behind it" % nm, lambda st, p=p, n=n, t=t: z3.And(nrun(t, n) == n - p(st) + nrun(t, p(st)), drun(t, n) == n - p(st) + drun(t, p(st)))))

                    def z(st, p=p, r=r, t=t, n=n):
                        x = st.store[r]
                        if not isinstance(x, Str) or x.base[0] != "arr":
                            return None
                        o = x.base[1]
                        i = z3.Int("i!zero")
                        return z3.And(x.len == n, z3.Implies(z3.And(0 <= K, K < p(st)), o[K] == t[K]), z3.ForAll([i], z3.Implies(z3.And(p(st) <= i, i < n), o[i] == 48), patterns=[o[i]]),
                                      z3.Implies(p(st) > 0, o[p(st) - 1] == t[p(st) - 1]))
                    out.append(("%s: zeros behind it" % nm, z))

                    def allz(st, p=p, r=r, t=t, n=n):
                        x = st.store[r]
                        if not isinstance(x, Str) or x.base[0] != "arr":
                            return None
                        o = x.base[1]
                        i = z3.Int("i!z")
                        return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < p(st)), o[i] == t[i]), patterns=[o[i]])
                    out.append(("%s: unchanged before it" % nm, allz))
        return out


P = ("P22",)


class Increment(Contract):
    q = "lspserver::increment"

    def modifies(self, c):
        return [c.args[0]]

    def ensures(self, c):
        old, new = c.oldarg(0), c.ex.load(c.args[0], c.st)
        if c.assuming:
            return [("the increment of the text", c.ex.as_seq(new) == incf(c.ex.as_seq(old)), P)]
        t, n = old.base[1], old.len
        x = new.arr()
        return [(nm, g, P) for nm, g in inc_spec(t, n, x.base[1], x.len, K)]


def draft(c, i=0, st=None):
    return c.arg(i, st)


class UpdateVersion(Contract):
    q = "lspserver::updateVersion"

    def modifies(self, c):
        l = c.args[0]
        return [l.field("Version")]

    def ensures(self, c):
        old, new = c.oldarg(0), c.ex.load(c.args[0], c.st)
        s = c.ex.as_seq(c.oldarg(1))
        v0, v1 = c.ex.as_seq(old.f["Version"]), c.ex.as_seq(new.f["Version"])
        return [("a given version is taken as it is", z3.Implies(z3.Length(s) > 0, v1 == s), P),
                ("without a version the old one is incremented", z3.Implies(z3.Length(s) == 0, v1 == incf(v0)), P)]


def leaves(ex, m, key):
    """has, text, version at a key"""
    d = ex.build(m.et, lambda p, s: z3.Select(m.data[p], key), "", None)
    f = d.f["D"].f
    return z3.Select(m.has, key), text(f["Contents"]), ex.as_seq(f["Version"])


def same(ex, m0, m1, key):
    a, b = leaves(ex, m0, key), leaves(ex, m1, key)
    return z3.And(a[0] == b[0], z3.Implies(a[0], z3.And(a[1] == b[1], a[2] == b[2])))


class AddDraft(Contract):
    q = "lspserver::DraftStore::addDraft"

    def modifies(self, c):
        return [c.this.field("Drafts")]

    def ensures(self, c):
        m0, m1 = c.get("Drafts", c.old), c.get("Drafts")
        k, v, t = (c.ex.as_seq(c.oldarg(i)) for i in range(3))
        h0, _, v0 = leaves(c.ex, m0, k)
        h1, t1, v1 = leaves(c.ex, m1, k)
        before = z3.If(h0, v0, z3.Empty(SEQ))
        return [("the file is open and its text is the one given", z3.And(h1, t1 == t), P),
                ("its version is the one given, or else the increment of the previous one", v1 == z3.If(z3.Length(v) > 0, v, incf(before)), P),
                ("the version is returned", c.ex.as_seq(c.ret) == v1, P),
                ("all other files are unchanged", z3.Implies(OTHER != k, same(c.ex, m0, m1, OTHER)), P)]


class GetDraft(Contract):
    q = "lspserver::DraftStore::getDraft"

    def ensures(self, c):
        m = c.get("Drafts", c.old)
        k = c.ex.as_seq(c.oldarg(0))
        h, t, v = leaves(c.ex, m, k)
        f = c.ret.val.f
        return [("there is a draft exactly if the file is open", c.ret.has == h, P),
                ("it is the stored text and version", z3.Implies(h, z3.And(text(f["Contents"]) == t, c.ex.as_seq(f["Version"]) == v)), P)]


class RemoveDraft(Contract):
    q = "lspserver::DraftStore::removeDraft"

    def modifies(self, c):
        return [c.this.field("Drafts")]

    def ensures(self, c):
        m0, m1 = c.get("Drafts", c.old), c.get("Drafts")
        k = c.ex.as_seq(c.oldarg(0))
        return [("the file is forgotten", z3.Not(z3.Select(m1.has, k)), P),
                ("all other files are unchanged", z3.Implies(OTHER != k, same(c.ex, m0, m1, OTHER)), P)]


class EncodeVersion(Contract):
    q = "lspserver::DraftStore::encodeVersion"

    def ensures(self, c):
        v = c.oldarg(0)
        return [("decimal text, or nothing", c.ex.as_seq(c.ret) == z3.If(v.has, dect(v.val), z3.Empty(SEQ)), P)]


class DecodeVersion(Contract):
    q = "lspserver::DraftStore::decodeVersion"

    def ensures(self, c):
        s = c.ex.as_seq(c.oldarg(0))
        return [("the number it denotes, if any", z3.And(c.ret.has == isnum(s), z3.Implies(isnum(s), c.ret.val == num(s))), P)]


CONTRACTS = [Increment(), UpdateVersion(), AddDraft(), GetDraft(), RemoveDraft(), EncodeVersion(), DecodeVersion()]


def contracts():
    return {c.q: c for c in CONTRACTS}


# llvm::StringRef::compare_numeric, from a token boundary i on: end of the digits
# that start at i, first difference within [i,e), and the order itself
fdig = SpecFun("fdig", [ARR, I, I], I)
fdig.body = lambda t, i, n: [fdig(t, i, n) >= i, z3.Implies(i <= n, fdig(t, i, n) <= n), fdig(t, i, n) == z3.If(z3.And(i < n, isdigit(t[i])), fdig(t, i + 1, n), i)]
memc = SpecFun("memc", [ARR, ARR, I, I], I)
memc.body = lambda s, t, i, e: [memc(s, t, i, e) == z3.If(i >= e, 0, z3.If(s[i] != t[i], z3.If(ubyte(s[i]) < ubyte(t[i]), -1, 1), memc(s, t, i + 1, e)))]


def ubyte(c):
    return z3.If(c < 0, c + 256, c)


def zmin2(a, b):
    return z3.If(a <= b, a, b)


cmpn = SpecFun("cmpn", [ARR, I, ARR, I, I], I)


def cmpn_body(s, n, t, m, i):
    js, jt = fdig(s, i, n), fdig(t, i, m)
    mc = memc(s, t, i, js)
    digits = z3.If(js != jt, z3.If(js < jt, -1, 1), z3.If(mc != 0, mc, cmpn(s, n, t, m, js)))
    end = z3.If(n == m, 0, z3.If(n < m, -1, 1))
    return [cmpn(s, n, t, m, i) == z3.If(i >= zmin2(n, m), end, z3.If(z3.And(isdigit(s[i]), isdigit(t[i])), digits,
            z3.If(s[i] != t[i], z3.If(ubyte(s[i]) < ubyte(t[i]), -1, 1), cmpn(s, n, t, m, i + 1))))]


cmpn.body = cmpn_body
SPECFUNS = [drun, nrun, fdig]


def lemmas():
    s, t = z3.Const("s", ARR), z3.Const("t", ARR)
    n, m, i, k, e = z3.Ints("n m i k e")
    d, z = drun(s, n), nrun(s, n)
    b = n - d
    x, y = z3.Ints("x!l y!l")
    inc = [n >= 0] + [g if False else z3.ForAll([y], z3.substitute(g, (k, y))) for _, g in inc_spec(s, n, t, m, k)]
    inc0 = [n >= 0] + [g for _, g in inc_spec(s, n, t, m, k)]
    byte = lambda a: z3.ForAll([y], z3.And(a[y] >= -128, a[y] <= 127))
    pre = [0 <= b, b <= n, z3.ForAll([y], z3.Implies(z3.And(0 <= y, y < b), s[y] == t[y]))]
    # the number at the end starts behind something that is not a digit
    notd = lambda e: z3.Implies(e - drun(s, e) > 0, z3.Not(isdigit(s[e - drun(s, e) - 1])))
    # digits of the number at the end
    digs = lambda e: z3.Implies(z3.And(e - drun(s, e) <= k, k < e), isdigit(s[k]))
    out = [("what precedes the number at the end is no digit", P, [("base", [e <= 0], notd(e)), ("step", [e >= 0, notd(e)], notd(e + 1))]),
           ("the number at the end consists of digits", P, [("base", [e <= 0], digs(e)), ("step", [e >= 0, digs(e)], digs(e + 1))])]
    nines = lambda e: z3.Implies(z3.And(e - nrun(s, e) <= k, k < e), s[k] == 57)
    stop = lambda e: z3.Implies(nrun(s, e) < drun(s, e), z3.And(s[e - 1 - nrun(s, e)] >= 48, s[e - 1 - nrun(s, e)] < 57))
    out.append(("nines are nines, and what precedes them is a smaller digit", P, [
        ("base", [e <= 0], z3.And(nines(e), stop(e))), ("step", [e >= 0, nines(e), stop(e)], z3.And(nines(e + 1), stop(e + 1)))]))
    # runs of digits before the number at the end are the same in both
    same = fdig(s, i, n) == fdig(t, i, m)
    runs = lambda i: z3.Implies(i < b, z3.And(fdig(s, i, n) == fdig(t, i, m), fdig(s, i, n) <= b))
    nd = z3.Implies(b > 0, z3.Not(isdigit(s[b - 1])))
    lens = [m >= n, m <= n + 1, b <= n]
    out.append(("digits in front of the last number end alike in both texts", P, [
        ("base", pre + lens + [nd, i >= b], runs(i)),
        ("last", pre + lens + [nd, i == b - 1, i >= 0], runs(i)),
        ("step", pre + lens + [nd, i >= 0, i + 1 < b, runs(i + 1)], runs(i))]))
    eqm = lambda i: memc(s, t, i, e) == 0
    out.append(("equal bytes compare equal", P, [("base", [i >= e], eqm(i)), ("step", [i < e, s[i] == t[i], eqm(i + 1)], eqm(i))]))
    # the numbers at the end
    fs = lambda a, lo, hi, q: z3.Implies(z3.And(lo <= q, q <= hi), fdig(a, q, hi) == hi)
    alld = lambda a, lo, hi: z3.ForAll([y], z3.Implies(z3.And(lo <= y, y < hi), isdigit(a[y])))
    out.append(("digits up to the end end at the end", P, [("base", [alld(s, k, e), i == e], fdig(s, i, e) == e),
                                                          ("step", [alld(s, k, e), k <= i, i < e, fdig(s, i + 1, e) == e], fdig(s, i, e) == e)]))
    mm = lambda i: memc(s, t, i, n) == -1
    smaller = [z < d, d <= n, 0 <= z] + inc + [byte(s), z3.And(s[n - 1 - z] >= 48, s[n - 1 - z] < 57)]
    out.append(("of the two numbers the old one is smaller", P, [
        ("base", smaller + [i == n - 1 - z], mm(i)),
        ("step", smaller + [i >= b, i >= 0, i < n - 1 - z, mm(i + 1)], mm(i))]))
    # all together, from a token boundary i up to the number at the end
    lt = lambda i: cmpn(s, n, t, m, i) == -1
    fin = inc + [byte(s), d <= n, 0 <= z, z <= d, i == b]
    out.append(("the order at the number at the end", P, [
        ("no number", fin + [d == 0], lt(i)),
        ("same length", fin + [z < d, fdig(s, b, n) == n, fdig(t, b, m) == m, mm(b), z3.And(s[n - 1 - z] >= 48, s[n - 1 - z] < 57), alld(s, b, n), alld(t, b, m)], lt(i)),
        ("longer", fin + [d > 0, z == d, fdig(s, b, n) == n, fdig(t, b, m) == m, alld(s, b, n), alld(t, b, m)], lt(i)),
        ("the new number consists of digits", inc + [byte(s), d <= n, 0 <= z, z <= d, d > 0, alld(s, b, n), z3.Implies(z < d, s[n - 1 - z] < 57), 0 <= k, b <= k, k < m], isdigit(t[k]))]))
    ih = z3.ForAll([x], z3.Implies(z3.And(i < x, x <= b), lt(x)))
    e0 = fdig(s, i, n)
    out.append(("storing without a version orders strictly after the previous version", P, [
        ("step", pre + lens + [byte(s), i >= 0, i < b, runs(i), ih, z3.Implies(isdigit(s[i]), e0 > i), memc(s, t, i, e0) == 0], lt(i))]))
    return out


SPEC, MODELS = DraftSpec, DraftModels
