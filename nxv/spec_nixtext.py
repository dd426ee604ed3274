"""Contracts for the Nix text the server writes (nixd/lib/Controller/CodeActions/Utils.cpp, RewriteString.cpp).

Texts are byte arrays with absolute positions.  The escaped text is specified
pointwise: byte k of the source, at its own position; a lemma per literal form
shows that reading the literal as Nix does gives the source text back."""
import z3
from .vals import *
from .exec import Contract, subarr
from .lib import Models, NPOS, isalpha, isalnum, isdigit
from .smt import SpecFun
from .spec_text import parts, MAXTEXT
from .spec_uri import UriSpec

K, J = z3.Ints("K!nix J!nix")
DQ, BS, NL, CR, TAB, DOL, OB, SQ = 34, 92, 10, 13, 9, 36, 123, 39
BAD = 1000       # what stands for "the literal ends here, or an interpolation begins"
KEYWORDS = [b"if", b"then", b"else", b"assert", b"with", b"let", b"in", b"rec", b"inherit", b"or"]
RESERVED = [b"true", b"false", b"null"]       # names a bare key may have, but need not


# ------------------------------------------------------------------- "..." literals
def special(t, k, e):
    """0: the byte stands for itself, otherwise the byte behind the backslash"""
    c = t[k]
    return z3.If(c == DQ, DQ, z3.If(c == BS, BS, z3.If(c == NL, ord("n"), z3.If(c == CR, ord("r"), z3.If(c == TAB, ord("t"), z3.If(z3.And(c == DOL, k + 1 < e, t[k + 1] == OB), DOL, 0))))))


def wd(t, k, e):
    return z3.If(special(t, k, e) != 0, 2, 1)


# position of byte k of t[a,e) in the escaped text
dpos = SpecFun("dpos", [ARR, I, I, I], I)
dpos.body = lambda t, a, e, k: [dpos(t, a, e, k) >= z3.If(k <= a, 0, k - a), dpos(t, a, e, k) <= z3.If(k <= a, 0, 2 * (k - a)),
                                dpos(t, a, e, k) == z3.If(k <= a, 0, dpos(t, a, e, k - 1) + wd(t, k - 1, e))]


def dq_at(o, p, t, k, e):
    s = special(t, k, e)
    return z3.If(s != 0, z3.And(o[p] == BS, o[p + 1] == s), o[p] == t[k])


# how Nix reads the inside of a double-quoted literal o[i,e)
rdq = SpecFun("read_dq", [ARR, I, I], SEQ)


def undq(c):
    return z3.If(c == ord("n"), NL, z3.If(c == ord("r"), CR, z3.If(c == ord("t"), TAB, c)))


def rdq_body(o, i, e):
    u = z3.Unit
    more = i + 1 < e
    return [rdq(o, i, e) == z3.If(i >= e, z3.Empty(SEQ),
            z3.If(o[i] == DQ, u(iv(BAD)),
            z3.If(o[i] == BS, z3.If(more, z3.Concat(u(undq(o[i + 1])), rdq(o, i + 2, e)), u(iv(BAD))),
            z3.If(z3.And(o[i] == DOL, more, o[i + 1] == OB), u(iv(BAD)),
            z3.If(z3.And(o[i] == DOL, more, o[i + 1] == DOL), z3.Concat(u(iv(DOL)), z3.Concat(u(iv(DOL)), rdq(o, i + 2, e))),
                  z3.Concat(u(o[i]), rdq(o, i + 1, e)))))))]


rdq.body = rdq_body


# ------------------------------------------------------------------- ''...'' literals
# is byte k the second of a pair of quotes (pairs are formed from the left)
second = SpecFun("second_quote", [ARR, I, I], B)
second.body = lambda t, a, k: [second(t, a, k) == z3.If(k <= a, False, z3.And(t[k] == SQ, t[k - 1] == SQ, z3.Not(second(t, a, k - 1))))]


def ind_kind(t, a, e, k, b):
    """0 itself, 1 first of a pair of quotes, 2 second, 3 lone quote before the end or a dollar, 4 dollar before a brace or (b) before an interpolation"""
    return z3.If(second(t, a, k), 2, z3.If(z3.And(t[k] == SQ, k + 1 < e, t[k + 1] == SQ), 1,
           z3.If(z3.And(t[k] == SQ, z3.Or(k + 1 >= e, t[k + 1] == DOL)), 3,
           z3.If(z3.And(t[k] == DOL, z3.Or(z3.And(k + 1 < e, t[k + 1] == OB), z3.And(k + 1 >= e, b))), 4, 0))))


def wi(t, a, e, k, b):
    n = ind_kind(t, a, e, k, b)
    return z3.If(n == 0, 1, z3.If(n == 1, 3, z3.If(n == 2, 0, z3.If(n == 3, 4, 3))))


ipos = SpecFun("ipos", [ARR, I, I, B, I], I)
ipos.body = lambda t, a, e, b, k: [ipos(t, a, e, b, k) >= 0, ipos(t, a, e, b, k) <= z3.If(k <= a, 0, 4 * (k - a)),
                                   ipos(t, a, e, b, k) == z3.If(k <= a, 0, ipos(t, a, e, b, k - 1) + wi(t, a, e, k - 1, b))]


def ind_at(o, p, t, a, e, k, b):
    n = ind_kind(t, a, e, k, b)
    s = lambda x: z3.And(*[o[p + i] == c for i, c in enumerate(x)])
    return z3.If(n == 0, o[p] == t[k], z3.If(n == 1, s(b"'''"), z3.If(n == 2, True, z3.If(n == 3, s(b"''\\'"), s(b"''$")))))


# how Nix reads the inside of an indented literal o[i,e); what follows at e is looked at
rind = SpecFun("read_ind", [ARR, I, I], SEQ)


def rind_body(o, i, e):
    u = z3.Unit
    q2 = z3.And(o[i] == SQ, o[i + 1] == SQ)
    return [rind(o, i, e) == z3.If(i >= e, z3.Empty(SEQ),
            z3.If(z3.And(q2, o[i + 2] == DOL), z3.Concat(u(iv(DOL)), rind(o, i + 3, e)),
            z3.If(z3.And(q2, o[i + 2] == SQ), z3.Concat(u(iv(SQ)), z3.Concat(u(iv(SQ)), rind(o, i + 3, e))),
            z3.If(z3.And(q2, o[i + 2] == BS), z3.Concat(u(undq(o[i + 3])), rind(o, i + 4, e)),
            z3.If(q2, u(iv(BAD)),
            z3.If(z3.And(o[i] == DOL, o[i + 1] == OB), u(iv(BAD)),
            z3.If(z3.And(o[i] == DOL, o[i + 1] != SQ), z3.Concat(u(o[i]), z3.Concat(u(o[i + 1]), rind(o, i + 2, e))),
            z3.If(z3.And(o[i] == SQ, o[i + 1] != DOL), z3.Concat(u(o[i]), z3.Concat(u(o[i + 1]), rind(o, i + 2, e))),
                  z3.Concat(u(o[i]), rind(o, i + 1, e))))))))))]


rind.body = rind_body


# ------------------------------------------------------------------- identifiers
def idch(c):
    return z3.Or(isalnum(c), c == ord("_"), c == ord("-"), c == SQ)


allid = SpecFun("allid", [ARR, I, I], B)
allid.body = lambda t, i, e: [allid(t, i, e) == z3.If(i >= e, True, z3.And(idch(t[i]), allid(t, i + 1, e)))]


def is_word(t, a, e, w):
    return z3.And(e - a == len(w), *[t[a + i] == c for i, c in enumerate(w)])


def ident(t, a, e):
    return z3.And(a < e, z3.Or(isalpha(t[a]), t[a] == ord("_")), allid(t, a + 1, e), z3.Not(z3.Or(*[is_word(t, a, e, w) for w in KEYWORDS])))


class ConstSet:
    """a set of constant strings"""

    def __init__(self, words):
        self.words = words


class NixModels(Models):
    def m_map(self, ex, e, st, o, av):
        v = ex.load(o, st) if o is not None else None
        if isinstance(v, ConstSet):
            n = e["name"]
            if n in ("end", "cend"):
                return [(MIt(o, None, z3.BoolVal(True)), st)]
            if n in ("find", "count", "contains"):
                t, a, end = parts(ex, self.tostr(ex, av[0], st))
                g = z3.Or(*[is_word(t, a, end, w) for w in v.words]) if v.words else z3.BoolVal(False)
                return [(MIt(o, iv(0), z3.Not(g)) if n == "find" else z3.If(g, iv(1), iv(0)) if n == "count" else g, st)]
            return None
        return Models.m_map(self, ex, e, st, o, av)

    def construct(self, ex, e, T, st):
        if T.q in ("std::set", "std::unordered_set", "llvm::StringSet") and e["args"]:
            words = self.literals(e["args"][0])
            if words is not None:
                return [(ConstSet(words), st)]
        return Models.construct(self, ex, e, T, st)

    def literals(self, x):
        """the string literals of an initialiser list, or None when it has anything else"""
        out = []
        def walk(y):
            if isinstance(y, dict):
                if y.get("k") == "str":
                    out.append(y)
                    return
                for k, z in y.items():
                    if isinstance(z, (dict, list)) and k != "t":
                        walk(z)
            elif isinstance(y, list):
                for z in y:
                    walk(z)
        walk(x)
        return [self.lit(y) for y in out]

    def lit(self, y):
        v = y.get("v", y.get("s"))
        if isinstance(v, list):
            return bytes(v)
        return v.encode("latin-1") if isinstance(v, str) else bytes(v)


class NixSpec(UriSpec):
    arrlit = True
    assumptions = ["texts are shorter than 2^31 bytes"]

    def loop_candidates(self, ex, s, entry, mod, roots):
        out = []
        el = ex.state_leaves(entry, roots)
        ints = sorted([k for k in mod if k in el and z3.is_expr(el[k]) and el[k].sort() == I and k[0] not in ("heap", "ghost") and not str(k[1]).endswith(("$len", "$off"))], key=str)
        bools = [v for r, v in sorted(entry.store.items()) if z3.is_expr(v) and v.sort() == B and not any(k[0] == r for k in mod)]
        texts = [(r, v) for r, v in entry.store.items() if isinstance(v, Str) and v.base[0] == "arr" and not any(k[0] == r for k in mod)]
        outs = [(r, v) for r, v in entry.store.items() if isinstance(v, Str) and any(k[0] == r for k in mod)]
        for r, v in texts:
            t, a, e = parts(ex, v)
            nm = ex.locname.get(r) or "t"
            for k in ints:
                pos = lambda st, k=k, a=a: a + ex.leaf_get(st, k)
                kn = ex.leafname(k)
                out.append(("%s within %s" % (kn, nm), lambda st, pos=pos, a=a, e=e: z3.And(pos(st) >= a, pos(st) <= e)))
                out.append(("identifier bytes of %s up to %s" % (nm, kn), lambda st, pos=pos, t=t, e=e: allid(t, pos(st), e) == allid(t, pos(entry), e)))
                for ro, vo in outs:
                    on = ex.locname.get(ro) or "out"

                    def build(st, ro, vo, P, at, a=a, pos=pos):
                        s_ = st.store[ro].arr() if st.store[ro] is not None else None
                        v0 = vo.arr()
                        if s_ is None or v0 is None:
                            return None
                        o, n, n0, p = s_.base[1], s_.len, v0.len, pos(st)
                        return z3.And(s_.off == 0, n == n0 + P(p), z3.Implies(z3.And(0 <= J, J < n0), o[J] == v0.base[1][J]),
                                      z3.Implies(z3.And(a <= K, K < p), z3.And(at(o, n0 + P(K), K), n0 + P(K + 1) <= n)))
                    out.append(("%s is %s escaped for double quotes up to %s" % (on, nm, kn), lambda st, ro=ro, vo=vo, b_=build, t=t, a=a, e=e:
                                b_(st, ro, vo, lambda k: dpos(t, a, e, k), lambda o, p, k: dq_at(o, p, t, k, e))))
                    for b in bools + [z3.BoolVal(False)]:
                        out.append(("%s is %s escaped for an indented string up to %s" % (on, nm, kn), lambda st, ro=ro, vo=vo, b_=build, t=t, a=a, e=e, b=b, pos=pos:
                                    andn(b_(st, ro, vo, lambda k: ipos(t, a, e, b, k), lambda o, p, k: ind_at(o, p, t, a, e, k, b)), z3.Or(pos(st) >= e, z3.Not(second(t, a, pos(st)))))))
        return out


def andn(a, b):
    return None if a is None else z3.And(a, b)


class IsValid(Contract):
    q = "nixd::isValidNixIdentifier"

    def ensures(self, c):
        t, a, e = parts(c.ex, c.oldarg(0))
        w = z3.Or(*[is_word(t, a, e, x) for x in RESERVED])
        return [("accepted names are identifiers and no keywords", z3.Implies(c.ret, ident(t, a, e)), ("P18",)),
                ("identifiers other than true, false and null are accepted", z3.Implies(z3.And(ident(t, a, e), z3.Not(w)), c.ret), ("P18",))]


class EscapeDq(Contract):
    q = "nixd::escapeNixString"

    def ensures(self, c):
        t, a, e = parts(c.ex, c.oldarg(0))
        r = c.ret.arr()
        o = r.base[1]
        P = lambda k: r.off + dpos(t, a, e, k)
        return [("the length of the escaped text", r.len == dpos(t, a, e, e), ("P18",)),
                ("every byte is written as itself or as its escape, in order", c.forall(K, z3.Implies(z3.And(a <= K, K < e), z3.And(dq_at(o, P(K), t, K, e), dpos(t, a, e, K + 1) <= r.len)), dpos(t, a, e, K)), ("P18",))]


class QuoteKey(Contract):
    q = "nixd::quoteNixAttrKey"

    def ensures(self, c):
        t, a, e = parts(c.ex, c.oldarg(0))
        r = c.ret.arr()
        o, n = r.base[1], r.len
        at = lambda i: o[r.off + i]
        bare = z3.And(n == e - a, z3.Implies(z3.And(0 <= K, K < n), at(K) == t[a + K]))
        D = dpos(t, a, e, e)
        quoted = z3.And(n == D + 2, at(0) == DQ, at(n - 1) == DQ, z3.Implies(z3.And(a <= K, K < e), z3.And(dq_at(o, r.off + 1 + dpos(t, a, e, K), t, K, e), dpos(t, a, e, K + 1) <= D)))
        w = z3.Or(*[is_word(t, a, e, x) for x in RESERVED])
        return [("a name is left bare or quoted and escaped", z3.Or(z3.And(ident(t, a, e), bare), quoted), ("P18",)),
                ("an identifier is left bare", z3.Implies(z3.And(ident(t, a, e), z3.Not(w)), bare), ("P18",)),
                ("anything else is quoted", z3.Implies(z3.Not(ident(t, a, e)), quoted), ("P18",))]


class EscapeInd(Contract):
    q = "nixd::(anonymous namespace)::escapeForIndentedString"

    def ensures(self, c):
        t, a, e = parts(c.ex, c.oldarg(0))
        b = c.oldarg(1)
        r = c.ret.arr()
        o = r.base[1]
        P = lambda k: r.off + ipos(t, a, e, b, k)
        return [("the length of the escaped text", r.len == ipos(t, a, e, b, e), ("P18",)),
                ("every byte is written as itself or as its escape, in order",
                 c.forall(K, z3.Implies(z3.And(a <= K, K < e), z3.And(ind_at(o, P(K), t, a, e, K, b), ipos(t, a, e, b, K + 1) <= r.len)), ipos(t, a, e, b, K)), ("P18",))]


class IsIndented(Contract):
    q = "nixd::(anonymous namespace)::isIndentedString"

    def requires(self, c):
        o = c.ex.load(c.path(c.args[1], "LCur.Offset"), c.st)
        return [("offsets are far below the range of size_t", z3.And(o >= 0, o < MAXTEXT), ("safety",))]

    def ensures(self, c):
        t, a, e = parts(c.ex, c.oldarg(0))
        o = a + c.ex.load(c.path(c.args[1], "LCur.Offset"), c.old)
        return [("two quotes stand at the start of the range", c.ret == z3.And(o + 1 < e, t[o] == SQ, t[o + 1] == SQ), ("P18",))]


CONTRACTS = [IsValid(), EscapeDq(), QuoteKey(), EscapeInd(), IsIndented()]
FNS = [c.q for c in CONTRACTS]


def contracts():
    return {c.q: c for c in CONTRACTS}


SPECFUNS = [dpos, ipos]


def lemmas():
    t, o = z3.Const("t", ARR), z3.Const("o", ARR)
    a, e, k, b = z3.Ints("a e k b")
    bi = z3.Bool("bi")
    D0, D1, D2, Da = z3.Consts("D0 D1 D2 Da", SEQ)
    T0, T1, T2 = z3.Consts("T0 T1 T2", SEQ)
    u = z3.Unit
    out = []
    q = lambda x: b + dpos(t, a, e, x)
    byte = lambda x: z3.And(t[x] >= -128, t[x] <= 127)
    # T0, T1, T2: the rest of the text from k, k + 1, k + 2
    rest = [T0 == z3.If(k < e, z3.Concat(u(t[k]), T1), z3.Empty(SEQ)), T1 == z3.If(k + 1 < e, z3.Concat(u(t[k + 1]), T2), z3.Empty(SEQ))]
    env = [a <= k, k < e, byte(k), byte(k + 1), byte(k + 2), dq_at(o, q(k), t, k, e), z3.Implies(k + 1 < e, dq_at(o, q(k + 1), t, k + 1, e)), q(k + 1) <= q(e), z3.Implies(k + 1 < e, q(k + 2) <= q(e))]
    out.append(("a text escaped for double quotes is read as the text", ("P18",), [
        ("the end", [a <= e], rdq(o, q(e), q(e)) == z3.Empty(SEQ)),
        ("step", env + rest + [rdq(o, q(k + 1), q(e)) == T1, z3.Implies(k + 1 < e, rdq(o, q(k + 2), q(e)) == T2), k + 2 <= e], rdq(o, q(k), q(e)) == T0),
        ("last", env + rest + [k + 1 == e, rdq(o, q(e), q(e)) == z3.Empty(SEQ)], rdq(o, q(k), q(e)) == T0)]))
    mono = lambda x: dpos(t, a, e, k + 1) <= dpos(t, a, e, x)
    out.append(("what is escaped ends before the end", ("P18",), [
        ("base", [a <= k], mono(k + 1)), ("step", [a <= k, k < e, mono(e)], mono(e + 1))]))
    p = lambda x: b + ipos(t, a, e, bi, x)
    T3 = z3.Const("T3", SEQ)
    rest = rest + [T2 == z3.If(k + 2 < e, z3.Concat(u(t[k + 2]), T3), z3.Empty(SEQ))]
    ctx = z3.If(bi, z3.And(o[p(e)] == DOL, o[p(e) + 1] == OB), z3.And(o[p(e)] == SQ, o[p(e) + 1] == SQ, o[p(e) + 2] != SQ, o[p(e) + 2] != DOL, o[p(e) + 2] != BS))
    at = lambda x: z3.Implies(x < e, z3.And(ind_at(o, p(x), t, a, e, x, bi), byte(x), p(x + 1) <= p(e)))
    hyp = lambda x, T: z3.Implies(z3.And(x <= e, z3.Not(z3.And(x < e, second(t, a, x)))), rind(o, p(x), p(e)) == T)
    env = [a <= k, k < e, z3.Not(second(t, a, k)), at(k), at(k + 1), at(k + 2), at(k + 3), ctx]
    out.append(("a text escaped for an indented string is read as the text", ("P18",), [
        ("the end", [a <= e], rind(o, p(e), p(e)) == z3.Empty(SEQ)),
        ("step", env + rest + [hyp(k + 1, T1), hyp(k + 2, T2), hyp(k + 3, T3)], rind(o, p(k), p(e)) == T0)]))
    return out


SPEC, MODELS = NixSpec, NixModels
