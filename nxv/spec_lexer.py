"""Contracts for nixf::Lexer (libnixf/src/Parse/Lexer.{h,cpp}).

The specification is written over the abstract source: ch(i) for 0<=i<N."""
import z3
from .vals import *
from .exec import Contract, Ctx
from .driver import Spec
from .diagspec import DiagMixin
from .lib import isdigit, isalpha, isalnum, isspace, Models
from .smt import SpecFun

ch = z3.Function("ch", I, I)
N = z3.Int("N")
SRC = Str(("uf", "src", ch), iv(0), N)
OUT = -1000


def at(i):
    return z3.If(z3.And(i >= 0, i < N), ch(i), iv(OUT))


def isc(c, s):
    return z3.Or(*[c == ord(x) for x in s]) if len(s) > 1 else c == ord(s)


def pathchar(c): return z3.Or(isalnum(c), isc(c, "._-+"))
def idchar(c): return z3.Or(isalnum(c), isc(c, "_'-"))
def urischeme(c): return z3.Or(isalnum(c), isc(c, "+-."))
def uripath(c): return z3.Or(isalnum(c), isc(c, "%/?:@&=+$,-_.!~*'"))
def ws(c): return isspace(c)


def lit(i, s):
    """the bytes s stand at offset i"""
    return z3.And(*[at(i + k) == ord(c) for k, c in enumerate(s)])


# -- line and column ---------------------------------------------------------
line = SpecFun("line", [I], I)
col = SpecFun("col", [I], I)
line.body = lambda o: [line(o) >= 0, line(o) <= z3.If(o <= 0, 0, o),
                       line(o) == z3.If(o <= 0, 0, line(o - 1) + z3.If(ch(o - 1) == 10, 1, 0))]
col.body = lambda o: [col(o) >= 0, col(o) <= z3.If(o <= 0, 0, o),
                      col(o) == z3.If(o <= 0, 0, z3.If(ch(o - 1) == 10, 0, col(o - 1) + 1))]


def span(name, pred):
    """end of the longest run of bytes satisfying pred from o"""
    f = SpecFun(name, [I], I)
    f.body = lambda o: [f(o) >= o, z3.Implies(o <= N, f(o) <= N),
                        f(o) == z3.If(z3.And(o >= 0, o < N, pred(ch(o))), f(o + 1), o)]
    return f


digits = span("digits", isdigit)
pcs = span("pathchars", pathchar)
ids = span("idchars", idchar)
uris = span("urischeme", urischeme)
urip = span("uripath", uripath)
pseg = span("pathsegs", lambda c: z3.Or(pathchar(c), c == ord("/")))


def rec_span(name, step):
    """f(o) defined by f(o) = step(f, o)"""
    f = SpecFun(name, [I], I)
    f.body = lambda o: [f(o) >= o, z3.Implies(o <= N, f(o) <= N), f(o) == step(f, o)]
    return f


blockend = rec_span("blockend", lambda f, o: z3.If(o >= N, o, z3.If(lit(o, "*/"), o + 2, f(o + 1))))
lineend = rec_span("lineend", lambda f, o: z3.If(o >= N, o, z3.If(lit(o, "\r\n"), o + 2, z3.If(ch(o) == 10, o + 1, f(o + 1)))))
trivia = rec_span("trivia", lambda f, o: z3.If(o >= N, o, z3.If(ws(ch(o)), f(o + 1), z3.If(lit(o, "/*"), f(blockend(o + 2)), z3.If(ch(o) == ord("#"), f(lineend(o + 1)), o)))))
spathtail = rec_span("spathtail", lambda f, o: z3.If(z3.And(lit(pcs(o), "/"), pathchar(at(pcs(o) + 1))), f(pcs(o) + 1), pcs(o)))
strend = rec_span("strpart", lambda f, o: z3.If(o >= N, o, z3.If(isc(ch(o), '\\"'), o, z3.If(lit(o, "$$"), f(o + 2), z3.If(lit(o, "${"), o, f(o + 1))))))
indend = rec_span("indpart", lambda f, o: z3.If(o >= N, o, z3.If(lit(o, "''"), o, z3.If(lit(o, "$$"), f(o + 2), z3.If(lit(o, "${"), o, f(o + 1))))))
SPANS = [digits, pcs, ids, uris, urip, pseg, blockend, lineend, trivia, spathtail, strend, indend]

KEYWORDS = ["if", "then", "else", "assert", "with", "let", "in", "rec", "inherit", "or"]
OPS = [("''", "quote2"), ("++", "op_concat"), ("+", "op_add"), ("->", "op_impl"), ("-", "op_negate"), ("*", "op_mul"),
       ("//", "op_update"), ("/", "op_div"), ("||", "op_or"), ("|>", "op_pipe_into"), ("!=", "op_neq"), ("!", "op_not"),
       ("<=", "op_le"), ("<|", "op_pipe_from"), ("<", "op_lt"), (">=", "op_ge"), (">", "op_gt"), ("&&", "op_and"),
       ('"', "dquote"), ("}", "r_curly"), ("...", "ellipsis"), (".", "dot"), ("@", "at"), (":", "colon"), ("?", "question"),
       (";", "semi_colon"), ("==", "op_eq"), ("=", "eq"), ("{", "l_curly"), ("(", "l_paren"), (")", "r_paren"),
       ("[", "l_bracket"), ("]", "r_bracket"), (",", "comma"), ("${", "dollar_curly")]


def tk(ex, n):
    return ex.db.enums["nixf::tok::TokenKind"]["tok_" + n]


_et = {}


def expr_token(ex, o):
    r = _et.get(o.get_id())
    if r is None:
        r = (o, _expr_token(ex, o))
        _et[o.get_id()] = r
    return r[1]


def _expr_token(ex, o):
    """(kind, end) of the expression-mode token that starts at o (trivia skipped)"""
    T = lambda n: iv(tk(ex, n))
    rows = []     # (condition, kind, end)
    c = at(o)
    rows.append((o >= N, T("eof"), o))
    okp = lambda p: z3.Or(pathchar(at(p)), lit(p, "${"))
    rows.append((z3.And(c == ord("~"), at(o + 1) == ord("/"), okp(o + 2)), T("path_fragment"), o + 2))
    p = pcs(o)
    rows.append((z3.And(at(p) == ord("/"), okp(p + 1)), T("path_fragment"), p + 1))
    u = uris(o)
    rows.append((z3.And(isalpha(c), at(u) == ord(":"), uripath(at(u + 1))), T("uri"), urip(u + 1)))
    d = digits(o)
    f = digits(d + 1)
    e1 = z3.If(isc(at(f), "eE"), f + 1, f)
    e2 = z3.If(z3.And(isc(at(f), "eE"), isc(at(e1), "+-")), e1 + 1, e1)
    fe = z3.If(isc(at(f), "eE"), digits(e2), f)
    rows.append((z3.And(isdigit(c), at(d) == ord(".")), T("float"), fe))
    rows.append((isdigit(c), T("int"), d))
    i = ids(o + 1)
    isid = z3.Or(isalpha(c), c == ord("_"))
    for k in KEYWORDS:
        rows.append((z3.And(isid, i == o + len(k), *[ch(o + j) == ord(x) for j, x in enumerate(k)]), T("kw_" + k), i))
    rows.append((isid, T("id"), i))
    s = spathtail(o + 1)
    rows.append((z3.And(c == ord("<"), pathchar(at(o + 1)), at(s) == ord(">")), T("spath"), s + 1))
    for t, n in OPS:
        rows.append((lit(o, t), T(n), o + len(t)))
    kind, end = T("unknown"), o + 1
    for cond, k, en in reversed(rows):
        kind = z3.If(cond, k, kind)
        end = z3.If(cond, en, end)
    # the float diagnostics
    noexp = z3.If(z3.And(isdigit(c), at(d) == ord("."), kind == T("float"), isc(at(f), "eE"), z3.Not(isdigit(at(e2)))), 1, 0)
    lead = z3.If(z3.And(isdigit(c), kind == T("float"), c == ord("0"), at(o + 1) != ord(".")), 1, 0)
    return kind, end, noexp, lead


def string_token(ex, o):
    T = lambda n: iv(tk(ex, n))
    c = at(o)
    rows = [(o >= N, T("eof"), o), (c == ord('"'), T("dquote"), o + 1),
            (c == ord("\\"), T("string_escape"), z3.If(o + 2 <= N, o + 2, N)), (lit(o, "${"), T("dollar_curly"), o + 2)]
    return rows, T("string_part"), strend(o)


def ind_token(ex, o):
    T = lambda n: iv(tk(ex, n))
    rows = [(o >= N, T("eof"), o), (lit(o, "''$"), T("string_escape"), o + 3), (lit(o, "'''"), T("string_escape"), o + 3),
            (lit(o, "''\\"), T("string_escape"), z3.If(o + 4 <= N, o + 4, N)), (lit(o, "''"), T("quote2"), o + 2),
            (lit(o, "${"), T("dollar_curly"), o + 2)]
    return rows, T("string_part"), indend(o)


def path_token(ex, o):
    T = lambda n: iv(tk(ex, n))
    c = at(o)
    rows = [(o >= N, T("path_end"), o), (lit(o, "${"), T("dollar_curly"), o + 2), (lit(o, "~/"), T("path_fragment"), pseg(o + 2)),
            (z3.Or(pathchar(c), c == ord("/")), T("path_fragment"), pseg(o))]
    return rows, T("path_end"), o


def fold(rows, kind, end):
    for cond, k, en in reversed(rows):
        kind = z3.If(cond, k, kind)
        end = z3.If(cond, en, end)
    return kind, end


def wf(c):
    o = c.f["Offset"]
    return z3.And(o >= 0, o <= N, c.f["Line"] == line(o), c.f["Column"] == col(o))


class LexSpec(DiagMixin):
    kinds_of_interest = ("DK_FloatNoExp", "DK_FloatLeadingZero")
    assumptions = ["source length is below 2^60 bytes", "isalpha/isdigit/isspace are the C-locale classes on -128..127",
                   "std::string_view / std::vector / std::optional behave as specified (library models)"]

    def start(self, ex, st):
        DiagMixin.start(self, ex, st)
        st.assume(z3.And(N >= 0, N < (1 << 60)))

    def build_hook(self, ex, T, mk, path, st):
        r = DiagMixin.build_hook(self, ex, T, mk, path, st)
        if r is not None:
            return r
        if T.k == "rec" and T.q == "std::basic_string_view" and path.endswith(".Src"):
            return SRC
        if T.k == "rec" and T.q == "std::basic_string_view" and path == ".View":
            # a token's text is always a slice of the source
            return Str(("uf", "src", ch), mk(path + ".off", I), mk(path + ".len", I))
        return None

    def wf_cur(self, ex, st, c):
        return wf(c)

    def loop_candidates(self, ex, s, entry, mod, roots):
        out = []
        el = ex.state_leaves(entry, roots)
        offs = [k for k in el if isinstance(k[1], str) and k[1].endswith("Offset") and k[0] not in ("heap", "ghost") and
                (k in mod or (k[0], k[1][:-6] + "Line") in mod or (k[0], k[1][:-6] + "Column") in mod)]
        for k in offs:
            base = k[1][:-len("Offset")]
            kl, kc = (k[0], base + "Line"), (k[0], base + "Column")
            if kl in el and kc in el:
                # extra integer locals that run ahead of the cursor (0, I, ...)
                ints = [None] + [m for m in mod if m not in (k, kl, kc) and m in el and z3.is_expr(el[m]) and el[m].sort() == I and m[0] != "ghost"]
                for v in ints[:4]:
                    def g(st, f, kk, k=k, v=v):
                        o = ex.leaf_get(st, k)
                        if v is not None:
                            o = o + ex.leaf_get(st, v)
                        return ex.leaf_get(st, kk) == f(o)
                    nm = "" if v is None else "+" + ex.leafname(v)
                    out.append(("Line == line(Offset%s)" % nm, lambda st, g=g, kl=kl: g(st, line, kl)))
                    out.append(("Column == col(Offset%s)" % nm, lambda st, g=g, kc=kc: g(st, col, kc)))
        o = None
        allint = [m for m in mod if m in el and z3.is_expr(el[m]) and el[m].sort() == I and m[0] not in ("heap", "ghost") and
                  not (isinstance(m[1], str) and (m[1].endswith("Line") or m[1].endswith("Column")))]
        for k in allint[:6]:
            e0 = el[k]
            out.append(("%s <= N" % ex.leafname(k), lambda st, k=k: ex.leaf_get(st, k) <= N))
            for sp in SPANS:
                if sp in (pcs, ids, digits):
                    out.append(("%s(%s) exhausted" % (sp.name, ex.leafname(k)), lambda st, k=k, sp=sp: sp(ex.leaf_get(st, k)) == ex.leaf_get(st, k)))
                out.append(("%s(%s) unchanged" % (sp.name, ex.leafname(k)), lambda st, k=k, sp=sp, e0=e0: sp(ex.leaf_get(st, k)) == sp(e0)))
        # an optional<char> local that mirrors peek()
        bools = [m for m in mod if isinstance(m[1], str) and m[1].endswith(".has") and (m[0], m[1][:-4] + ".val") in el]
        for kb in bools:
            kv = (kb[0], kb[1][:-4] + ".val")
            if not (z3.is_expr(el[kv]) and el[kv].sort() == I):
                continue
            for k in allint[:4]:
                out.append(("%s mirrors the next byte" % ex.leafname(kb), lambda st, kb=kb, kv=kv, k=k:
                            z3.And(ex.leaf_get(st, kb) == (ex.leaf_get(st, k) < N), z3.Implies(ex.leaf_get(st, kb), ex.leaf_get(st, kv) == ch(ex.leaf_get(st, k))))))
        return out

    def measures(self, ex, entry, mod, roots):
        el = ex.state_leaves(entry, roots)
        out = []
        for k in mod:
            if k in el and z3.is_expr(el[k]) and el[k].sort() == I and k[0] not in ("heap", "ghost"):
                out.append(("N - %s" % ex.leafname(k), lambda st, k=k: N - ex.leaf_get(st, k)))
        return out


class CurContract(Contract):
    def cur(self, c): return c.get("Cur")
    def ocur(self, c): return c.oldv("Cur")

    def requires(self, c):
        return [("cursor well-formed", wf(self.cur(c)), ("P02",))]


class Consume(CurContract):
    q = "nixf::Lexer::consume"

    def requires(self, c):
        n = c.arg(0)
        o = self.cur(c).f["Offset"]
        return [("cursor well-formed", wf(self.cur(c)), ("P02",)),
                ("enough bytes remain", z3.And(n >= 0, o + n <= N), ("safety",))]

    def modifies(self, c):
        return [c.path(c.this, "Cur")]

    def ensures(self, c):
        k = self.cur(c)
        return [("cursor well-formed", wf(k), ("P02",)), ("offset advances by N", k.f["Offset"] == self.ocur(c).f["Offset"] + c.oldarg(0), ("P01",))]


class ConsumeTrivia(CurContract):
    q = "nixf::Lexer::consumeTrivia"

    def modifies(self, c):
        return [c.path(c.this, "Cur")]

    def ensures(self, c):
        k = self.cur(c)
        o = k.f["Offset"]
        return [("cursor well-formed", wf(k), ("P02",)),
                ("skips exactly white space and comments", o == trivia(self.ocur(c).f["Offset"]), ("P01", "P03"))]


class TryConsume(CurContract):
    """bool f(): either consumes exactly the described bytes or leaves the cursor"""
    def modifies(self, c):
        return [c.path(c.this, "Cur")]

    def ensures(self, c):
        k = self.cur(c)
        o = self.ocur(c).f["Offset"]
        cond, end = self.spec(o)
        return [("cursor well-formed", wf(k), ("P02",)),
                ("accepts exactly the described bytes", c.ret == cond, ("P03",)),
                ("consumes exactly the accepted bytes", k.f["Offset"] == z3.If(cond, end, o), ("P01", "P03"))]


class ConsumePathStart(TryConsume):
    q = "nixf::Lexer::consumePathStart"

    def spec(self, o):
        okp = lambda p: z3.Or(pathchar(at(p)), lit(p, "${"))
        home = at(o) == ord("~")
        p = pcs(o)
        return (z3.If(home, z3.And(at(o + 1) == ord("/"), okp(o + 2)), z3.And(at(p) == ord("/"), okp(p + 1))),
                z3.If(home, o + 2, p + 1))


class ConsumeURI(TryConsume):
    q = "nixf::Lexer::consumeURI"

    def spec(self, o):
        u = uris(o)
        return z3.And(at(u) == ord(":"), uripath(at(u + 1))), urip(u + 1)


class ConsumeSPath(TryConsume):
    q = "nixf::Lexer::consumeSPath"

    def requires(self, c):
        o = self.cur(c).f["Offset"]
        return CurContract.requires(self, c) + [("stands at '<'", at(o) == ord("<"), ("P03",))]

    def spec(self, o):
        s = spathtail(o + 1)
        return z3.And(pathchar(at(o + 1)), at(s) == ord(">")), s + 1


class TokenFn(CurContract):
    def modifies(self, c):
        return [c.path(c.this, "Cur"), c.path(c.this, "Tok"), c.path(c.this, "TokStartPtr")]

    def start(self, c):
        return self.ocur(c).f["Offset"]

    def spec(self, c, o):
        raise NotImplementedError

    def ensures(self, c):
        t = c.ret
        if isinstance(t, LV):
            t = c.ex.load(t, c.st)
        k = self.cur(c)
        l, r = t.f["Range"].f["LCur"], t.f["Range"].f["RCur"]
        v = t.f["View"]
        o = self.start(c)
        kind, end = self.spec(c, o)[:2]
        T = self.prop
        es = [("cursor well-formed", wf(k), ("P02",)),
              ("token start is well-formed", wf(l), ("P02",)),
              ("token end is well-formed", wf(r), ("P02",)),
              ("cursor is at the token's end", k.f["Offset"] == r.f["Offset"], ("P01",)),
              ("token starts right after the skipped trivia", l.f["Offset"] == o, ("P01",)),
              ("token range inside the source", z3.And(l.f["Offset"] <= r.f["Offset"], r.f["Offset"] <= N), ("P01",)),
              ("token text is the source slice", z3.And(z3.BoolVal(v.base[0] == "uf"), v.off == l.f["Offset"], v.len == r.f["Offset"] - l.f["Offset"]), ("P01",)),
              ("progress", z3.Or(t.f["Kind"] == tk(c.ex, "eof"), t.f["Kind"] == tk(c.ex, "path_end"), r.f["Offset"] > l.f["Offset"]), ("P01",)),
              ("end of source gives an end token", z3.Implies(o >= N, z3.Or(t.f["Kind"] == tk(c.ex, "eof"), t.f["Kind"] == tk(c.ex, "path_end"))), ("P01",)),
              ("token kind", t.f["Kind"] == kind, (T,)),
              ("token end", r.f["Offset"] == end, (T,))]
        return es


class Lex(TokenFn):
    ghost_ok = True
    q = "nixf::Lexer::lex"
    prop = "P03"

    def start(self, c):
        return trivia(self.ocur(c).f["Offset"])

    def spec(self, c, o):
        return expr_token(c.ex, o)

    def ensures(self, c):
        es = TokenFn.ensures(self, c)
        _, _, noexp, lead = expr_token(c.ex, self.start(c))
        g, og = c.st.ghost, c.old.ghost
        if "diag:DK_FloatNoExp" in g:
            es.append(("missing float exponent is diagnosed", g["diag:DK_FloatNoExp"] - og["diag:DK_FloatNoExp"] == noexp, ("P03",)))
            es.append(("leading zero of a float is diagnosed", g["diag:DK_FloatLeadingZero"] - og["diag:DK_FloatLeadingZero"] == lead, ("P03",)))
        return es


class LexString(TokenFn):
    q = "nixf::Lexer::lexString"
    prop = "P04"
    def spec(self, c, o): return fold(*string_token(c.ex, o))


class LexIndString(TokenFn):
    q = "nixf::Lexer::lexIndString"
    prop = "P04"
    def spec(self, c, o): return fold(*ind_token(c.ex, o))


class LexPath(TokenFn):
    q = "nixf::Lexer::lexPath"
    prop = "P04"
    def spec(self, c, o): return fold(*path_token(c.ex, o))


class SetCur(Contract):
    q = "nixf::Lexer::setCur"

    def requires(self, c):
        return [("new cursor well-formed", wf(c.arg(0)), ("P02",))]

    def modifies(self, c):
        return [c.path(c.this, "Cur")]

    def ensures(self, c):
        k, a = c.get("Cur"), c.arg(0)
        return [("cursor well-formed", wf(k), ("P02",)), ("cursor is the given one", k.f["Offset"] == a.f["Offset"], ("P02",))]


CONTRACTS = [Consume(), ConsumeTrivia(), ConsumePathStart(), ConsumeURI(), ConsumeSPath(), Lex(), LexString(), LexIndString(), LexPath(), SetCur()]


def contracts():
    return {c.q: c for c in CONTRACTS}
