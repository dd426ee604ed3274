"""Contracts for URI handling (nixd/lspserver/src/URI.cpp).

Texts are byte arrays with absolute positions, as in spec_text.  What is written
byte by byte is specified pointwise, at an arbitrary source index K."""
import z3
from .vals import *
from .exec import Contract, Ctx, BIG, subarr
from .driver import Spec
from .lib import Models, NPOS, isalpha, isalnum, isxdigit
from .smt import SpecFun
from .spec_text import parts, zmin, MAXTEXT

K, J, X = z3.Ints("K!uri J!uri X!uri")


def ub(t, i):
    return z3.If(t[i] < 0, t[i] + 256, t[i])


def unreserved(c):
    return z3.Or(isalnum(c), *[c == ord(x) for x in "-_.~/:"])


def esc(t, i):
    return z3.Not(unreserved(t[i]))


def width(t, i):
    return z3.If(esc(t, i), 3, 1)


def hexd(n):
    return z3.If(n < 10, n + 48, n + 55)


def nib(c):
    return z3.If(c <= 57, c - 48, z3.If(c <= 70, c - 55, c - 87))


elen = SpecFun("elen", [ARR, I, I], I)
elen.body = lambda t, a, e: [elen(t, a, e) >= 0, elen(t, a, e) <= z3.If(e <= a, 0, 3 * (e - a)), elen(t, a, e) >= z3.If(e <= a, 0, e - a),
                             elen(t, a, e) == z3.If(e <= a, 0, elen(t, a, e - 1) + width(t, e - 1))]


def enc_at(o, p, t, k):
    """at position p of o stands the encoding of byte k of t"""
    return z3.If(esc(t, k), z3.And(o[p] == 37, o[p + 1] == hexd(ub(t, k) / 16), o[p + 2] == hexd(ub(t, k) % 16)), o[p] == t[k])


def pct(t, i, e):
    return z3.And(t[i] == 37, i + 2 < e, isxdigit(t[i + 1]), isxdigit(t[i + 2]))


def pval(t, i):
    v = nib(t[i + 1]) * 16 + nib(t[i + 2])
    return z3.If(v > 127, v - 256, v)


dec = SpecFun("dec_uri", [ARR, I, I], SEQ)
dec.body = lambda t, i, e: [z3.If(i >= e, dec(t, i, e) == z3.Empty(SEQ), z3.If(pct(t, i, e), dec(t, i, e) == z3.Concat(z3.Unit(pval(t, i)), dec(t, i + 3, e)),
                                                                              dec(t, i, e) == z3.Concat(z3.Unit(t[i]), dec(t, i + 1, e))))]
# first byte c in [a,e), or e
fst = SpecFun("fst", [ARR, I, I, I], I)
fst.body = lambda t, a, e, c: [fst(t, a, e, c) >= a, z3.Implies(a <= e, fst(t, a, e, c) <= e), z3.Implies(z3.And(a <= e, fst(t, a, e, c) < e), t[fst(t, a, e, c)] == c),
                               fst(t, a, e, c) == z3.If(a >= e, a, z3.If(t[a] == c, a, fst(t, a + 1, e, c)))]


def schemech(c):
    return z3.Or(isalnum(c), c == 43, c == 46, c == 45)


# all of [a,e) are scheme characters
allsch = SpecFun("allsch", [ARR, I, I], B)
allsch.body = lambda t, a, e: [allsch(t, a, e) == z3.If(a >= e, True, z3.And(schemech(t[a]), allsch(t, a + 1, e)))]
# the same of a sequence (defined by content: equal byte sequences are equally valid)
validseq = z3.Function("validseq", SEQ, B)


def valid(t, a, e):
    return z3.And(a < e, isalpha(t[a]), allsch(t, a, e))


class UriModels(Models):
    def m_string(self, ex, e, st, o, av):
        n = e["name"]
        if n == "find" and len(av) in (1, 2):
            c = self.val(ex, av[0], st)
            if z3.is_expr(c) and is_const_int(simp(c)) and (len(av) == 1 or simp(self.val(ex, av[1], st)).eq(iv(0))):
                t, a, end = parts(ex, ex.load(o, st))
                r = fst(t, a, end, simp(c))
                return [(simp(z3.If(r < end, r - a, iv(NPOS))), st)]
        if n == "consume_front" and len(av) == 1:
            v = ex.load(o, st)
            x = self.tostr(ex, av[0], st)
            c = x.concrete()
            if c is None:      # a prefix known to be one: decided by the caller's facts
                g = z3.And(v.len >= x.len, ex.as_seq(Str(v.base, v.off, x.len)) == ex.as_seq(x))
                ln = x.len
            else:
                g = z3.And(v.len >= len(c), *[v.at(iv(i)) == x.at(iv(i)) for i in range(len(c))])
                ln = iv(len(c))
            out = []
            for b, s in ex.branch(g, st, e.get("line")):
                if b:
                    ex.store(o, Str(v.base, simp(v.off + ln), simp(v.len - ln)), s)
                out.append((z3.BoolVal(b), s))
            return out
        return Models.m_string(self, ex, e, st, o, av)

    def free(self, ex, e, st, q, name):
        if q in ("lspserver::elog", "lspserver::log", "lspserver::vlog"):
            return [(UNIT, st)]
        if q in ("lspserver::error", "lspserver::detail::error"):
            return [(Rec("llvm::Error", {"fail": z3.BoolVal(True)}), st)]
        if q == "llvm::hexdigit":
            out = []
            for av, s in ex.args_for(e, st):
                x = self.val(ex, av[0], s)
                ex.ob(s, z3.And(x >= 0, x < 16), "hexdigit of a nibble", e.get("line"))
                low = self.val(ex, av[1], s) if len(av) > 1 else z3.BoolVal(False)
                out.append((z3.If(x < 10, x + 48, z3.If(low, x + 87, x + 55)), s))
            return out
        if q == "llvm::hexFromNibbles":
            out = []
            for av, s in ex.args_for(e, st):
                a, b = self.val(ex, av[0], s), self.val(ex, av[1], s)
                ex.ob(s, z3.And(isxdigit(a), isxdigit(b)), "hexFromNibbles of hexadecimal digits", e.get("line"))
                out.append((nib(a) * 16 + nib(b), s))
            return out
        if q == "llvm::drop_begin":
            out = []
            for av, s in ex.args_for(e, st):
                v = self.tostr(ex, av[0], s)
                n = self.val(ex, av[1], s) if len(av) > 1 else iv(1)
                ex.ob(s, n <= v.len, "drop_begin within the range", e.get("line"))
                out.append((Str(v.base, simp(v.off + n), simp(v.len - n)), s))
            return out
        if q == "llvm::all_of":
            out = []
            for av, s in ex.args_for(e, st):
                t, a, end = parts(ex, self.tostr(ex, av[0], s))
                f = self.val(ex, av[1], s)
                c = ex.const("tu", I)
                s2 = s.fork()
                s2.assume(z3.And(c >= -128, c <= 127))
                rs = ex.call_value(f, {"line": e.get("line"), "args": [], "t": None}, [c], s2)
                if not all(z3.is_expr(x) and ex.provable(s3, x == schemech(c)) for x, s3 in rs):
                    # another predicate: nothing is known about the result
                    out.append((ex.const("all_of", B), s))
                else:
                    out.append((allsch(t, a, end), s))
            return out
        if q == "llvm::sys::path::is_separator":
            return [(av[0] == 47, s) for av, s in ex.args_for(e, st)]
        if q == "llvm::sys::path::is_style_windows":
            return [(z3.BoolVal(False), st)]
        if q == "llvm::sys::path::convert_to_slash":
            return [(self.tostr(ex, av[0], s), s) for av, s in ex.args_for(e, st)]
        if q == "llvm::sys::path::root_name":
            out = []
            for av, s in ex.args_for(e, st):
                t, a, end = parts(ex, self.tostr(ex, av[0], s))
                n = z3.If(net(t, a, end), fst(t, a + 2, end, iv(47)) - a, 0)
                out.append((Str(("arr", t), a, simp(n)), s))
            return out
        return Models.free(self, ex, e, st, q, name)

    def extra_method(self, ex, e, st, q, name):
        if q == "llvm::Twine" and name == "toVector":
            out = []
            for x, s in ex.rv(e["obj"], st):
                for av, s2 in ex.args_for(e, s):
                    if not isinstance(x, Str):
                        return None
                    v = ex.load(av[0], s2)
                    ex.store(av[0], self.splice(ex, v.arr(), v.len, iv(0), x), s2)
                    out.append((UNIT, s2))
            return out
        if q in ("llvm::SmallString", "llvm::SmallVectorImpl", "llvm::SmallVectorTemplateCommon"):
            return self.run(ex, e, st, self.m_string)
        return None

    def construct(self, ex, e, T, st):
        if T.q == "llvm::SmallString":
            return [(Str.lit(b""), st)] if not e["args"] else None
        if T.q == "llvm::Twine":
            out = []
            for av, s in ex.args_for(e, st):
                out.append((self.tostr(ex, av[0], s), s))
            return out
        return Models.construct(self, ex, e, T, st)


def net(t, a, e):
    """the path begins with a network name: two slashes and something else"""
    return z3.And(e - a > 2, t[a] == 47, t[a + 1] == 47, t[a + 2] != 47)


class UriSpec(Spec):
    assumptions = ["the native path style is POSIX", "texts are shorter than 2^31 bytes"]
    arrstr = True

    def build_hook(self, ex, T, mk, path, st):
        if T.k == "rec" and T.q == "llvm::StringRef":
            t, o, n = mk(path, ARR), mk(path + ".off", I), mk(path + ".len", I)
            if st is not None:
                st.assume(z3.And(o >= 0, n >= 0, o + n < MAXTEXT))
            return Str(("arr", t), o, n)
        if T.k == "rec" and T.q in ("std::basic_string", "std::__cxx11::basic_string"):
            t, n = mk(path, ARR), mk(path + ".len", I)
            if st is not None:
                st.assume(z3.And(n >= 0, n < MAXTEXT - 2))
            return Str(("arr", t), iv(0), n)
        return None

    def loop_candidates(self, ex, s, entry, mod, roots):
        out = []
        el = ex.state_leaves(entry, roots)
        ints = [k for k in mod if k in el and z3.is_expr(el[k]) and el[k].sort() == I and k[0] not in ("heap", "ghost") and not str(k[1]).endswith("$len")]
        ints.sort(key=str)
        # a cursor is an index (0..) or a pointer ($off, absolute) into an unmodified text
        texts = []
        for r, v in entry.store.items():
            if isinstance(v, Str) and v.base[0] == "arr" and not any(k == (r, ".$base") for k in mod):
                texts.append((r, v))
        outs = [(r, v) for r, v in entry.store.items() if isinstance(v, Str) and (r, ".$base") in mod]
        for r, v in texts:
            t, a, e = parts(ex, v)
            nm = ex.locname.get(r) or "t"
            for k in ints:
                isptr = str(k[1]).endswith("$off")
                if isptr and k[0] != r and not self.same_text(entry.store[k[0]], v):
                    continue
                pos = (lambda st, k=k: ex.leaf_get(st, k)) if isptr else (lambda st, k=k, a=a: a + ex.leaf_get(st, k))
                kn = ex.leafname(k)
                if k[0] != r:
                    out.append(("%s within %s" % (kn, nm), lambda st, pos=pos, a=a, e=e: z3.And(pos(st) >= a, pos(st) <= e)))
                if isptr:
                    out.append(("%s ends with %s" % (kn, nm), lambda st, k=k, e=e: st.store[k[0]].off + st.store[k[0]].len == e))
                for ro, vo in outs:
                    on = ex.locname.get(ro) or "out"
                    if isinstance(vo, Str) and vo.arr() is not None:
                        o0, n0 = vo.arr().base[1], vo.len

                        def inv(st, ro=ro, t=t, a=a, pos=pos, o0=o0, n0=n0):
                            s_ = st.store[ro].arr()
                            if s_ is None:
                                return None
                            o, n = s_.base[1], s_.len
                            p = pos(st)
                            return z3.And(n == n0 + elen(t, a, p), z3.Implies(z3.And(0 <= J, J < n0), o[J] == o0[J]),
                                          z3.Implies(z3.And(a <= K, K < p), z3.And(enc_at(o, n0 + elen(t, a, K), t, K), elen(t, a, K) + width(t, K) <= elen(t, a, p))),
                                          z3.Implies(z3.And(n0 <= X, X < n), z3.Or(unreserved(o[X]), o[X] == 37)))
                        out.append(("%s is the encoding of %s up to %s" % (on, nm, kn), inv))
                    def inv2(st, ro=ro, t=t, a=a, e=e, pos=pos, vo=vo):
                        s_ = st.store[ro]
                        if s_ is None or s_.base[0] == "arr":
                            return None
                        return z3.Concat(ex.as_seq(s_), dec(t, pos(st), e)) == z3.Concat(ex.as_seq(vo), dec(t, a, e))
                    out.append(("%s is %s decoded up to %s" % (on, nm, kn), inv2))
        return out

    def same_text(self, p, v):
        return isinstance(p, Str) and p.base[0] == "arr" and p.base[1].eq(v.base[1])


class PercentEncode(Contract):
    q = "lspserver::(anonymous namespace)::percentEncode"

    def modifies(self, c):
        return [c.args[1]]

    def ensures(self, c):
        t, a, e = parts(c.ex, c.oldarg(0))
        o0 = c.oldarg(1).arr()
        o = c.ex.load(c.args[1], c.st).arr()
        A, n0 = o.base[1], o0.len
        p = lambda k: n0 + elen(t, a, k)
        return [("the encoded length", o.len == p(e), ("P17",)),
                ("what was there is kept", c.forall(J, z3.Implies(z3.And(0 <= J, J < n0), A[J] == o0.base[1][J]), A[J]), ("P17",)),
                ("every byte is written as itself or as its percent sequence, in order",
                 c.forall(K, z3.Implies(z3.And(a <= K, K < e), z3.And(enc_at(A, p(K), t, K), elen(t, a, K) + width(t, K) <= elen(t, a, e))), elen(t, a, K)), ("P17",)),
                ("only URI-safe characters are written", c.forall(X, z3.Implies(z3.And(n0 <= X, X < o.len), z3.Or(unreserved(A[X]), A[X] == 37)), A[X]), ("P17",))]


class PercentDecode(Contract):
    q = "lspserver::(anonymous namespace)::percentDecode"

    def ensures(self, c):
        t, a, e = parts(c.ex, c.oldarg(0))
        return [("percent sequences are decoded, every other byte stands for itself", c.ex.as_seq(c.ret) == dec(t, a, e), ("P17",))]


class IsValidScheme(Contract):
    q = "lspserver::(anonymous namespace)::isValidScheme"

    def ensures(self, c):
        v = c.oldarg(0)
        t, a, e = parts(c.ex, v)
        out = [("a letter, then letters, digits, plus, dot or minus", c.ret == valid(t, a, e), ("P17",))]
        if c.assuming:
            out.append(("by content", c.ret == validseq(c.ex.as_seq(v)), ("P17",)))
        return out


class ToString(Contract):
    q = "lspserver::URI::toString"

    def ensures(self, c):
        S, A, Bd = (c.get(f, c.old) for f in ("Scheme", "Authority", "Body"))
        r = c.ret.arr()
        o, n = r.base[1], r.len
        (s, s0, s1), (u, u0, u1), (b, b0, b1) = (parts(c.ex, x) for x in (S, A, Bd))
        L = elen(s, s0, s1)
        slash = z3.And(Bd.len > 0, b[b0] == 47)
        auth = z3.Or(A.len > 0, slash)
        pa = L + 3
        pb = L + 1 + z3.If(auth, 2 + elen(u, u0, u1), 0)
        return [("the length", n == pb + elen(b, b0, b1), ("P17",)),
                ("the scheme, then a colon", z3.And(c.forall(K, z3.Implies(z3.And(s0 <= K, K < s1), enc_at(o, elen(s, s0, K), s, K)), elen(s, s0, K)), o[L] == 58), ("P17",)),
                ("two slashes and the authority unless the body is relative", z3.Implies(auth, z3.And(o[L + 1] == 47, o[L + 2] == 47,
                    c.forall(K, z3.Implies(z3.And(u0 <= K, K < u1), enc_at(o, pa + elen(u, u0, K), u, K)), elen(u, u0, K)))), ("P17",)),
                ("the body", c.forall(K, z3.Implies(z3.And(b0 <= K, K < b1), enc_at(o, pb + elen(b, b0, K), b, K)), elen(b, b0, K)), ("P17",))]


class Parse(Contract):
    q = "lspserver::URI::parse"

    def ensures(self, c):
        t, a, e = parts(c.ex, c.oldarg(0))
        r = c.ret
        col = fst(t, a, e, iv(58))
        sch = dec(t, a, col)
        p = col + 1
        auth = z3.And(p + 1 < e, t[p] == 47, t[p + 1] == 47)
        sl = fst(t, p + 2, e, iv(47))
        seq = lambda f: c.ex.as_seq(r.val.f[f])
        ok = z3.And(col < e, validseq(sch))
        return [("rejected exactly without a valid scheme", r.has == ok, ("P17",)),
                ("the decoded scheme", z3.Implies(ok, seq("Scheme") == sch), ("P17",)),
                ("the decoded authority", z3.Implies(ok, seq("Authority") == z3.If(auth, dec(t, p + 2, sl), z3.Empty(SEQ))), ("P17",)),
                ("the decoded body", z3.Implies(ok, seq("Body") == z3.If(auth, dec(t, sl, e), dec(t, p, e))), ("P17",))]


class GetAbsolutePath(Contract):
    q = "lspserver::FileSystemScheme::getAbsolutePath"

    def ensures(self, c):
        A, Bd = c.oldarg(0), c.oldarg(1)
        b, b0, b1 = parts(c.ex, Bd)
        r = c.ret
        ok = z3.And(Bd.len > 0, b[b0] == 47)
        return [("rejected exactly when the body is not absolute", r.has == ok, ("P17",)),
                ("without an authority the path is the body", z3.Implies(z3.And(ok, A.len == 0), z3.And(r.val.len == Bd.len, z3.Implies(z3.And(0 <= K, K < Bd.len), r.val.at(K) == Bd.at(K)))), ("P17",)),
                ("with an authority the path is //authority/body", z3.Implies(z3.And(ok, A.len > 0), z3.And(r.val.len == 2 + A.len + Bd.len, r.val.at(iv(0)) == 47, r.val.at(iv(1)) == 47,
                    z3.Implies(z3.And(0 <= K, K < A.len), r.val.at(K + 2) == A.at(K)), z3.Implies(z3.And(0 <= K, K < Bd.len), r.val.at(K + 2 + A.len) == Bd.at(K)))), ("P17",))]


class UriFromAbsolutePath(Contract):
    q = "lspserver::FileSystemScheme::uriFromAbsolutePath"

    def requires(self, c):
        p = c.arg(0)
        return [("an absolute path", z3.And(p.len > 0, p.at(iv(0)) == 47), ("safety",))]

    def ensures(self, c):
        p = c.oldarg(0)
        t, a, e = parts(c.ex, p)
        r = c.ret
        S, A, Bd = (r.val.f[x] for x in ("Scheme", "Authority", "Body"))
        nt = net(t, a, e)
        sl = fst(t, a + 2, e, iv(47))
        eq = lambda x, lo, hi: z3.And(x.len == hi - lo, z3.Implies(z3.And(0 <= K, K < hi - lo), x.at(K) == t[lo + K]))
        return [("a file URI", z3.And(r.has, S.len == 4, *[S.at(iv(i)) == ch for i, ch in enumerate(b"file")]), ("P17",)),
                ("a path of one leading slash is the body", z3.Implies(z3.Not(nt), z3.And(A.len == 0, eq(Bd, a, e))), ("P17",)),
                ("a network name is the authority", z3.Implies(nt, z3.And(eq(A, a + 2, sl), z3.Implies(sl < e, eq(Bd, sl, e)), z3.Implies(sl >= e, z3.And(Bd.len == 1, Bd.at(iv(0)) == 47)))), ("P17",))]


CONTRACTS = [PercentEncode(), PercentDecode(), IsValidScheme(), ToString(), Parse(), GetAbsolutePath(), UriFromAbsolutePath()]


def contracts():
    return {c.q: c for c in CONTRACTS}


SPECFUNS = [elen, fst]


def lemmas():
    t, o = z3.Const("t", ARR), z3.Const("o", ARR)
    a, e, k, b = z3.Ints("a e k b")
    out = []
    mono = lambda e: elen(t, a, k) + width(t, k) <= elen(t, a, e)
    out.append(("the encoding of a byte ends before the encoding of the text", ("P17",), [
        ("base", [a <= k, e == k + 1], mono(e)),
        ("step", [a <= k, k < e, mono(e)], mono(e + 1))]))
    q = lambda k: b + elen(t, a, k)
    step = lambda k: z3.Concat(subarr(t, a, k - a), dec(o, q(k), q(e))) == dec(o, q(a), q(e))
    D0, D1, Da = z3.Consts("D0 D1 Da", SEQ)      # dec from byte k, from byte k + 1, from the start
    byte = lambda x: z3.And(t[x] >= -128, t[x] <= 127)
    out.append(("decoding the encoding of a text gives the text", ("P17",), [
        ("base", [a <= e], step(a)),
        ("one byte", [a <= k, k < e, byte(k), enc_at(o, q(k), t, k), mono(e)], dec(o, q(k), q(e)) == z3.Concat(z3.Unit(t[k]), dec(o, q(k + 1), q(e)))),
        ("step", [a <= k, k < e, D0 == z3.Concat(z3.Unit(t[k]), D1), z3.Concat(subarr(t, a, k - a), D0) == Da], z3.Concat(subarr(t, a, k + 1 - a), D1) == Da),
        ("conclusion", [a <= e, step(e)], subarr(t, a, e - a) == dec(o, q(a), q(e)))]))
    # file URI of a path t[0,e) of one leading slash: body t, scheme "file", no authority; o is its text as toString writes it
    n = 7 + elen(t, 0, e)
    whole = [e > 0, t[0] == 47, z3.Not(net(t, 0, e)), n == 7 + elen(t, 0, e), enc_at(o, 7 + elen(t, 0, iv(0)), t, iv(0)), elen(t, 0, iv(0)) + width(t, 0) <= elen(t, 0, e)] + \
            [o[i] == ch for i, ch in enumerate(b"file://")]
    L = fst(o, 0, n, 58)
    hint = [fst(o, i, n, 58) >= i for i in range(5)] + [fst(o, 7, n, 47) >= 7] + [z3.Length(dec(o, i, 4)) >= 0 for i in range(5)]
    out.append(("a path of one leading slash survives the trip through its URI", ("P17",), [
        ("the scheme ends at the first colon", whole + hint, L == 4),
        ("the scheme is file", whole + hint, dec(o, 0, 4) == z3.Concat(*[z3.Unit(iv(x)) for x in b"file"])),
        ("file is a scheme", [allsch(o, i, 4) == allsch(o, i, 4) for i in range(5)] + [o[i] == ch for i, ch in enumerate(b"file")], valid(o, iv(0), iv(4))),
        ("the authority is empty and the body is what follows", whole + hint, z3.And(o[5] == 47, o[6] == 47, 6 < n, fst(o, 7, n, 47) == 7)),
        ("the body decodes to the path", whole + [z3.substitute(z3.substitute(subarr(t, a, e - a) == dec(o, q(a), q(e)), (b, iv(7))), (a, iv(0))), elen(t, 0, 0) == 0],
         dec(o, 7, n) == subarr(t, 0, e))]))
    return out


SPEC, MODELS = UriSpec, UriModels
