"""Contracts for nixf::Parser (libnixf/src/Parse/Parse*.cpp).

A cursor is its offset plus a flag saying that line and column are those of the
offset (what the lexer's own proof establishes: spec_lexer.wf).  The look-ahead
buffer holds at most four tokens; `fl` is the end of the last token consumed,
`pos` where the next one starts at the earliest."""
import z3
from .vals import *
from .exec import Contract, select
from .driver import Spec
from .diagspec import DiagMixin
from .lib import isdigit, Models
from .smt import SpecFun
from . import spec_lexer as L
from .spec_lexer import ch, N, SRC, at, lit, pathchar

SLOTS = 4
TOP = z3.Function("stack.top", I, I)
BELOW = z3.Function("stack.below", I, I)
DEPTH = z3.Function("stack.depth", I, I)
PUSH = z3.Function("stack.push", I, I, I)
lo = z3.Function("F!nixf::Node.Range.LCur.Offset", I, I)
hi = z3.Function("F!nixf::Node.Range.RCur.Offset", I, I)
nkind = z3.Function("F!nixf::Node.Kind", I, I)
M, M2 = z3.Ints("M!p M2!p")

ATTRSETS = "nixf::ExprAttrs.SA"
P5, P6, P11, P14 = ("P05",), ("P06",), ("P11",), ("P14",)

# the checks of a list of formals a[0..n): what is reported where, by recursion over the list
TRACKED = ("DK_FormalMissingComma", "DK_FormalExtraEllipsis", "DK_FormalMisplacedEllipsis", "DK_EmptyFormal", "DK_DuplicatedFormal", "DK_DuplicatedFormalToArg")
TRACKING = ("nixf::Sema::checkFormalSep", "nixf::Sema::checkFormalEllipsis", "nixf::Sema::checkFormalEmpty", "nixf::Sema::dedupFormal", "nixf::Sema::onFormals", "nixf::Sema::onLambdaArg")
NAMES = z3.ArraySort(SEQ, B)
BYNAME = z3.ArraySort(SEQ, I)
fcomma, fid, fell = (z3.Function("F!nixf::Formal." + x, I, I) for x in ("Comma", "ID", "Ellipsis"))
idname = z3.Function("F!nixf::Identifier.Name", I, SEQ)
count = lambda m, o: z3.Store(m, o, z3.Select(m, o) + 1)


def recur(name, dom, rng, step):
    """f(a, ..., k, base): base for k <= 0, else step(f(..k-1..), a, ..., k-1)"""
    f = SpecFun(name, dom, rng)

    def body(*x):
        *pre, k, b = x
        p = f(*pre, k - 1, b)
        return [f(*x) == z3.If(k <= 0, b, step(p, *pre, k - 1))]
    f.body = body
    return f


SEPS = recur("formals.seps", [ARR, I, ARR], ARR, lambda p, a, j: z3.If(z3.And(j > 0, fcomma(a[j]) == 0), count(p, lo(a[j])), p))
EXTRA = recur("formals.extra", [ARR, I, I, ARR], ARR, lambda p, a, n, j: z3.If(z3.And(fell(a[j]) != 0, fell(a[n - 1]) != 0), count(p, lo(a[j])), p))
MISPLACED = recur("formals.misplaced", [ARR, I, I, ARR], ARR, lambda p, a, n, j: z3.If(z3.And(fell(a[j]) != 0, fell(a[n - 1]) == 0), count(p, lo(a[j])), p))
EMPTY = recur("formals.empty", [ARR, I, ARR], ARR, lambda p, a, j: z3.If(z3.And(fcomma(a[j]) != 0, fid(a[j]) == 0, fell(a[j]) == 0), count(p, lo(a[j])), p))
HAS = recur("formals.names", [ARR, I, NAMES], NAMES, lambda p, a, j: z3.If(fid(a[j]) != 0, z3.Store(p, idname(fid(a[j])), True), p))
NONAMES = z3.K(SEQ, z3.BoolVal(False))
has = lambda a, k: HAS(a, k, NONAMES)
BY = recur("formals.byname", [ARR, I, BYNAME], BYNAME, lambda p, a, j: z3.If(z3.And(fid(a[j]) != 0, z3.Not(z3.Select(has(a, j), idname(fid(a[j]))))), z3.Store(p, idname(fid(a[j])), a[j]), p))
DUPS = recur("formals.dups", [ARR, I, ARR], ARR, lambda p, a, j: z3.If(z3.And(fid(a[j]) != 0, z3.Select(has(a, j), idname(fid(a[j])))), count(p, lo(fid(a[j]))), p))
FIRST = SpecFun("formals.first", [ARR, I, SEQ], I)
BYAT = SpecFun("formals.byat", [ARR, I, SEQ, BYNAME], I)
S = z3.Const("S!name", SEQ)
here = lambda a, j, s: z3.And(fid(a[j]) != 0, idname(fid(a[j])) == s)


def _first(a, k, s):
    """the first formal of a name among the first k, or -1"""
    r, p = FIRST(a, k, s), FIRST(a, k - 1, s)
    return [z3.And(r >= -1, z3.Or(r == -1, r < k)), z3.Select(has(a, k), s) == (r >= 0), z3.Implies(r >= 0, here(a, r, s)),
            r == z3.If(k <= 0, -1, z3.If(p >= 0, p, z3.If(here(a, k - 1, s), k - 1, -1)))]


def _byat(a, k, s, b):
    """the table of names holds the first formal of each name"""
    r, p, f = BYAT(a, k, s, b), BYAT(a, k - 1, s, b), FIRST(a, k, s)
    return [r == z3.Select(BY(a, k, b), s), z3.Implies(f >= 0, r == a[f]),
            r == z3.If(k <= 0, z3.Select(b, s), z3.If(z3.And(here(a, k - 1, s), FIRST(a, k - 1, s) < 0), a[k - 1], p))]


FIRST.body, BYAT.body = _first, _byat
CONT = ("id", "l_curly", "r_curly", "kw_let")      # what may stand before a token looked ahead to


def pst(o):
    """a path fragment starts here, also when lexed as part of a path"""
    return z3.And(o < N, z3.Not(lit(o, "${")), z3.Or(lit(o, "~/"), pathchar(ch(o)), ch(o) == ord("/")))


def cursor(off, ok=True):
    return Rec("nixf::LexerCursor", {"Offset": off, "wf": z3.BoolVal(ok) if isinstance(ok, bool) else ok})


def rng(l, r):
    return Rec("nixf::LexerCursorRange", {"LCur": l, "RCur": r})


def token(k, l, r):
    return Rec("nixf::Token", {"Kind": k, "Range": rng(cursor(l), cursor(r))})


def wf(c):
    return z3.And(c.f["wf"], c.f["Offset"] >= 0, c.f["Offset"] <= N)


def off(c):
    return c.f["Offset"]


class PV:
    """a Parser as the contracts see it"""
    def __init__(self, rec):
        b = rec.f["LookAheadBuf"].f
        self.b = b
        self.len = b["len"]
        self.cur = rec.f["Lex"].f["Cur"]
        lt = rec.f["LastToken"]
        self.has = lt.has
        self.ltk, self.ltl, self.ltr = lt.val.f["Kind"], lt.val.f["Range"].f["LCur"], lt.val.f["Range"].f["RCur"]
        self.fl = z3.If(lt.has, off(self.ltr), iv(0))
        self.s = rec.f["State"].f["s"]
        self.n = rec.f["SyncTokens"].f["n"]
        self.top = TOP(self.s)
        self.pos = z3.If(self.len > 0, b["l0"], off(self.cur))

    def k(self, i): return self.b["k%d" % i]
    def l(self, i): return self.b["l%d" % i]
    def r(self, i): return self.b["r%d" % i]
    def tok(self, i): return token(self.k(i), self.l(i), self.r(i))

    def at(self, what, i):
        """component of a slot chosen by a term"""
        i = simp(i)
        if is_const_int(i):
            n = ival(i)
            return self.b["%s%d" % (what, n)] if 0 <= n < SLOTS else iv(0)
        r = self.b["%s%d" % (what, SLOTS - 1)]
        for j in range(SLOTS - 2, -1, -1):
            r = z3.If(i == j, self.b["%s%d" % (what, j)], r)
        return r


_TK = {}


def T(ex, *names):
    t = ex.db.enums["nixf::tok::TokenKind"]
    return [t["tok_" + n] for n in names]


def isk(ex, k, names):
    vs = T(ex, *names)
    return z3.Or(*[k == v for v in vs]) if len(vs) > 1 else k == vs[0]


STATES = {"Expr": None, "String": ("eof", "dquote", "string_escape", "dollar_curly", "string_part"),
          "IndString": ("eof", "quote2", "string_escape", "dollar_curly", "string_part"),
          "Path": ("path_end", "dollar_curly", "path_fragment")}
NOEXPR = ("string_part", "string_escape", "path_end")


def ps(ex, n):
    return ex.db.enums["nixf::Parser::ParserState"]["PS_" + n]


def kindok(ex, top, k):
    out = []
    for n, ks in STATES.items():
        out.append(z3.Implies(top == ps(ex, n), z3.Not(isk(ex, k, NOEXPR)) if ks is None else isk(ex, k, ks)))
    return z3.And(*out)


def anykind(ex, k):
    vs = ex.db.enums["nixf::tok::TokenKind"].values()
    return z3.And(k >= min(vs), k <= max(vs))


def tokfacts(ex, top, k, l, r):
    return z3.And(anykind(ex, k), 0 <= l, l <= r, r <= N, z3.Or(isk(ex, k, ("eof", "path_end")), l < r), kindok(ex, top, k),
                  z3.Implies(k == T(ex, "int")[0], isdigit(ch(l))), z3.Implies(k == T(ex, "spath")[0], r >= l + 2),
                  z3.Implies(z3.And(k == T(ex, "path_fragment")[0], top == ps(ex, "Expr")), pst(l)))


def INV(ex, p):
    """what every function of the parser relies on and keeps"""
    out = [("at most four tokens are looked ahead", z3.And(p.len >= 0, p.len <= SLOTS)),
           ("the lexer stands at a consistent cursor", wf(p.cur)),
           ("the last token has a range", z3.Implies(p.has, z3.And(wf(p.ltl), wf(p.ltr), off(p.ltl) <= off(p.ltr)))),
           ("nothing looked ahead was consumed", p.fl <= p.pos),
           ("the parser has a state", z3.And(DEPTH(p.s) > 0, p.top >= 0, p.top <= 3))]
    for i in range(SLOTS):
        f = tokfacts(ex, p.top, p.k(i), p.l(i), p.r(i))
        if i + 1 < SLOTS:
            f = z3.And(f, z3.Implies(p.len > i + 1, z3.And(p.r(i) <= p.l(i + 1), isk(ex, p.k(i), CONT), p.top == ps(ex, "Expr"))),
                       z3.Implies(p.len == i + 1, p.r(i) == off(p.cur)))
        else:
            f = z3.And(f, z3.Implies(p.len == i + 1, p.r(i) == off(p.cur)))
        out.append(("token %d looked ahead is a token" % i, z3.Implies(p.len > i, f)))
    return out


def same_buf(p, q, upto=SLOTS):
    return z3.And(p.len == q.len, *[p.b[k] == q.b[k] for k in p.b if k != "len"])


class ParserModels(Models):
    def extra_free(self, ex, e, st, q, name):
        if name == 'operator""sv' or name == 'operator""s':
            return [(Str(av[0].base, av[0].off, av[1]), s) for av, s in ex.args_for(e, st)]
        if name == "from_chars":
            return self.run(ex, e, st, self.from_chars)
        if name == "strtod":
            return [(ex.const("strtod", FLT), s) for _, s in ex.args_for(e, st)]
        return None

    def from_chars(self, ex, e, st, o, av):
        """std::from_chars for integers: invalid_argument unless a number starts here"""
        b, en = self.val(ex, av[0], st), self.val(ex, av[1], st)
        if not isinstance(b, Str) or not isinstance(en, Str) or b.base != en.base:
            raise Unsupported("from_chars outside one text")
        n = simp(en.off - b.off)
        ex.ob(st, n >= 0, "from_chars is given a range", e.get("line"))
        ec = ex.const("errc", I)
        ranged = ex.db.enums.get("std::errc", {}).get("result_out_of_range", 34)
        invalid = ex.db.enums.get("std::errc", {}).get("invalid_argument", 22)
        st.assume(z3.Or(ec == 0, ec == ranged, z3.And(ec == invalid, z3.Not(z3.And(n > 0, isdigit(b.at(iv(0))))))))
        if isinstance(av[2], LV):
            x = ex.const("number", I)
            st.assume(z3.And(x >= -(1 << 63), x < (1 << 63)))
            ex.store(av[2], z3.If(ec == 0, x, ex.load(av[2], st)), st)
        return [(Rec("std::from_chars_result", {"ptr": Str(b.base, ex.const("ptr", I), iv(0)), "ec": ec}), st)]


class ParserSpec(DiagMixin):
    heap_classes = {"nixf::Node"}
    mutable_heap = {"nixf::ExprAttrs.SA"}
    generic_loops = False
    assumptions = ["source length is below 2^60 bytes",
                   "a cursor's line and column follow its offset wherever the lexer made it (proved for the lexer: P02)",
                   "std::deque, std::stack, std::multiset, std::vector, std::shared_ptr, std::optional, std::from_chars behave as specified (library models)"]

    def called(self, c):
        """further ghost state a call changes"""

    def start(self, ex, st):
        DiagMixin.start(self, ex, st)
        self.generic_loops = not ex.curfn.startswith("nixf::Parser::")
        st.ghost["$gen"] = ex.const("gen", I)
        st.assume(z3.And(N >= 0, N < (1 << 60)))
        if ex.curfn in TRACKING:
            for n in TRACKED:
                st.ghost["$at:" + n] = ex.const("at:" + n, ARR)

    # -- shapes -------------------------------------------------------------
    def build_hook(self, ex, Ty, mk, path, st):
        r = DiagMixin.build_hook(self, ex, Ty, mk, path, st)
        if r is not None:
            return r
        if Ty.k != "rec":
            return None
        if Ty.n == "nixf::LexerCursor":
            return cursor(mk(path + ".Offset", I))
        if Ty.n == "nixf::Token":
            k = mk(path + ".Kind", I)
            return Rec("nixf::Token", {"Kind": k, "Range": rng(cursor(mk(path + ".Range.LCur.Offset", I)), cursor(mk(path + ".Range.RCur.Offset", I)))})
        if Ty.q == "std::deque":
            f = {"len": mk(path + ".len", I)}
            for i in range(SLOTS):
                for x in "klr":
                    f["%s%d" % (x, i)] = mk("%s.%s%d" % (path, x, i), I)
            return Rec("$buf", f)
        if Ty.q == "std::stack":
            return Rec("$stack", {"s": mk(path + ".s", I)})
        if Ty.q == "std::multiset":
            return Rec("$multiset", {"n": mk(path + ".n", ARR)})
        if Ty.q == "std::basic_string_view" and path.endswith(".Src"):
            return SRC
        return None

    def zero_hook(self, ex, Ty, st):
        return cursor(iv(0)) if Ty.k == "rec" and Ty.n == "nixf::LexerCursor" else None

    def default_hook(self, ex, Ty, st):
        if Ty.k != "rec":
            return None
        if Ty.n == "nixf::LexerCursor":
            return cursor(ex.const("nocursor", I), False)
        if Ty.q == "std::deque":
            f = {"len": iv(0)}
            for i in range(SLOTS):
                for x in "klr":
                    f["%s%d" % (x, i)] = iv(0)
            return Rec("$buf", f)
        if Ty.q == "std::stack":
            s = ex.const("stack", I)
            st.assume(DEPTH(s) == 0)
            return Rec("$stack", {"s": s})
        if Ty.q == "std::multiset":
            return Rec("$multiset", {"n": z3.K(I, iv(0))})
        return None

    def heap_read(self, ex, lv, v, st):
        n = lv.ref
        if lv.cls == "nixf::Node" and lv.path and lv.path[0] == "Range":
            st.assume(z3.And(0 <= lo(n), lo(n) <= hi(n), hi(n) <= N))
            nk = ex.db.enums["nixf::Node::NodeKind"]
            st.assume(z3.Implies(z3.Or(*[nkind(n) == nk["NK_" + k] for k in self.NONEMPTY]), lo(n) < hi(n)))
        for nm, f in self.classinv(ex, lv.cls, n):
            st.assume(f)
        if lv.cls not in self.SHARED and lv.t is not None and self.nodeptr(ex, lv.t) and z3.is_expr(v):
            st.assume(z3.Implies(v != 0, z3.And(lo(n) <= lo(v), lo(v) <= hi(v), hi(v) <= hi(n))))
        t = lv.t
        if t is not None and self.nodeptr(ex, t) and z3.is_expr(v):
            self.typed(ex, t.targs[0], v, st)

    NONEMPTY = ("Identifier", "AttrName", "AttrPath", "Binding", "ExprString", "Interpolation", "Misc", "Dot", "Op", "Formal", "Formals", "LambdaArg", "Inherit", "Binds", "ExprVar") + tuple("Expr" + x for x in "Int Float Call List Path SPath Paren BinOp UnaryOp OpHasAttr Select Attrs If Assert Let LegacyLet With Lambda".split())

    # classes of which objects are also made for desugared code: there children may lie elsewhere
    SHARED = {"nixf::ExprAttrs", "nixf::ExprSelect", "nixf::ExprVar", "nixf::AttrPath", "nixf::Identifier"}

    def typed(self, ex, T, v, st):
        """a pointer's static type tells the kind of what it points to (every down-cast is an obligation)"""
        k = self.kindof(ex, T)
        f = [] if k is None else [z3.Implies(v != 0, nkind(v) == k)]
        if T.n == "nixf::Expr":
            nk = ex.db.enums["nixf::Node::NodeKind"]
            f = [z3.Implies(v != 0, z3.And(nkind(v) > nk["NK_BeginExpr"], nkind(v) < nk["NK_EndExpr"]))]
        st.assume(z3.And(v >= 0, *f))

    def kindof(self, ex, T):
        cn = T.n.split("::")[-1] if T.n and T.n.startswith("nixf::") else None
        return ex.db.enums["nixf::Node::NodeKind"].get("NK_" + {"InterpolatedParts": "InterpolableParts"}.get(cn, cn)) if cn else None

    def downcast(self, ex, T, v, st, line):
        t = T.to if T.k in ("ptr", "ref", "rref") else T
        if t.k == "rec" and t.q == "std::shared_ptr":
            t = t.targs[0]
        r = v.ref if isinstance(v, HLV) else v
        if not ex.heapclass(t) or not z3.is_expr(r):
            return
        k = self.kindof(ex, t)
        if k is None:
            nk = ex.db.enums["nixf::Node::NodeKind"]
            if t.n == "nixf::Expr":
                f = z3.And(nkind(r) > nk["NK_BeginExpr"], nkind(r) < nk["NK_EndExpr"])
            else:
                raise Unsupported("cast to " + str(t.n))
        else:
            f = nkind(r) == k
        ex.ob(st, z3.Implies(r != 0, f), "the node cast to %s is one" % t.n.split("::")[-1], line, P5)

    # what the constructors establish (obligations of on_alloc) and every reader may rely on
    def classinv(self, ex, cls, n, s=S):
        F = lambda f: z3.Function("F!%s.%s" % (cls, f), I, I)(n)
        out = [("it is not empty", lo(n) < hi(n))] if cls.split("::")[-1] in self.NONEMPTY else []
        if cls == "nixf::AttrName":
            E = ex.db.enums["nixf::AttrName::AttrNameKind"]
            k = F("Kind'")
            return out + [("its name is of its kind", z3.And(z3.Implies(k == E["ANK_ID"], F("ID") > 0), z3.Implies(k == E["ANK_String"], F("String") > 0),
                                                       z3.Implies(k == E["ANK_Interpolation"], F("Interp") > 0), z3.Or(*[k == v for v in E.values()])))]
        if cls == "nixf::Formals":
            a, ln = z3.Function("F!nixf::Formals.Members.[]", I, ARR)(n), z3.Function("F!nixf::Formals.Members.len", I, I)(n)
            return out + [("it knows the names of its formals", z3.Function("F!nixf::Formals.Dedup.has", I, NAMES)(n) == has(a, ln)),
                          ("it knows every name by its first formal", z3.Implies(z3.Select(has(a, ln), s), z3.Select(z3.Function("F!nixf::Formals.Dedup.{}", I, BYNAME)(n), s) == a[FIRST(a, ln, s)]))]
        if cls == "nixf::AttrPath":
            out.append(("it has a name", z3.Function("F!nixf::AttrPath.Names.len", I, I)(n) > 0))
        need = {"nixf::ExprString": ["Parts"], "nixf::Binding": ["Path"], "nixf::ExprVar": ["ID"], "nixf::ExprPath": ["Parts"],
                "nixf::ExprWith": ["KwWith"], "nixf::ExprLambda": ["Arg"], "nixf::ExprSelect": ["E"]}.get(cls)
        if cls == "nixf::ExprLet":
            out.append(("its bindings are recursive", z3.Implies(F("Attrs") != 0, z3.Function("F!nixf::ExprAttrs.Rec", I, I)(F("Attrs")) != 0)))
        return out + [("it has %s" % f, F(f) > 0) for f in need or ()]

    def elem_read(self, ex, v, idx, x, st):
        a = v.data.get("") if isinstance(v, Vec) else None
        if a is None or not z3.is_app(a) or a.num_args() != 1:
            return
        for nm, f in self.eleminv(ex, a.decl().name(), a.arg(0), x):
            st.assume(z3.Implies(z3.And(0 <= idx, idx < v.len), f))
        if v.et.k == "rec" and self.nodeptr(ex, v.et):
            self.typed(ex, v.et.targs[0], x, st)

    def eleminv(self, ex, nm, n, x):
        if nm == "F!nixf::Binds.Bindings.[]":
            nk = ex.db.enums["nixf::Node::NodeKind"]
            return [("each is a binding or an inherit", z3.And(x > 0, z3.Or(nkind(x) == nk["NK_Binding"], nkind(x) == nk["NK_Inherit"]))),
                    ("each lies inside", z3.And(lo(n) <= lo(x), lo(x) <= hi(x), hi(x) <= hi(n)))]
        if nm == "F!nixf::Inherit.Names.[]":
            return [("each is a name", x > 0)]
        if nm == "F!nixf::Formals.Members.[]":
            return [("each is a formal", x > 0)]
        if nm == "F!nixf::AttrPath.Names.[]":
            return [("each is a name", x > 0)]
        return []

    def wf_cur(self, ex, st, c):
        return wf(c)

    # -- calls --------------------------------------------------------------
    def call_hook(self, ex, e, st):
        r = DiagMixin.call_hook(self, ex, e, st)
        if r is not None:
            return r
        name, q = e.get("name"), e.get("q")
        if name in ("operator==", "operator!=") and q and q.startswith("nixf::operator"):
            ts = [a["t"].to if a["t"].k in ("ref", "rref") else a["t"] for a in e["args"]]
            if len(ts) == 2 and all(t.k == "rec" and t.n == "nixf::LexerCursor" for t in ts):
                out = []
                for av, s in ex.args_for(e, st):
                    a, b = [ex.load(x, s) if isinstance(x, (LV, HLV)) else x for x in av]
                    ex.ob(s, z3.And(wf(a), wf(b)), "cursors compared are consistent", e.get("line"))
                    out.append((off(a) == off(b) if name == "operator==" else off(a) != off(b), s))
                return out
        if q == "nixf::Token::view":
            out = []
            for o, s in ex.obj_lv(e["obj"], e.get("arrow"), st, e.get("line")):
                t = ex.load(o, s)
                l, r = off(t.f["Range"].f["LCur"]), off(t.f["Range"].f["RCur"])
                out.append((Str(("uf", "src", ch), l, simp(r - l)), s))
            return out
        o = e.get("obj")
        if o is not None:
            t = o["t"].to if o["t"].k in ("ptr", "ref", "rref") else o["t"]
            if t is not None and t.k == "rec":
                f = {"std::deque": self.c_deque, "std::stack": self.c_stack, "std::multiset": self.c_multiset}.get(t.q)
                if f is not None:
                    ex.assumed.add("model:%s::%s" % (t.q, name))
                    return self.seq_call(ex, e, st, f)
        return None

    def c_deque(self, ex, st, o, av, e):
        n, line = e["name"], e.get("line")
        b = ex.load(o, st)
        ln = b.f["len"]
        if n == "size":
            return [(ln, st)]
        if n == "empty":
            return [(simp(ln == 0), st)]
        if n == "clear":
            ex.store(o, b.with_("len", iv(0)), st)
            return [(UNIT, st)]
        if n in ("front", "operator[]", "back"):
            i = iv(0) if n == "front" else self._v(ex, av[0], st) if n == "operator[]" else ln - 1
            ex.ob(st, z3.And(0 <= i, i < ln), "a token is in the look-ahead buffer", line, P5)
            p = PV.__new__(PV)
            p.b = b.f
            return [(token(p.at("k", i), p.at("l", i), p.at("r", i)), st)]
        if n == "pop_front":
            ex.ob(st, ln > 0, "a token is in the look-ahead buffer", line, P5)
            f = {"len": simp(ln - 1)}
            for x in "klr":
                for i in range(SLOTS):
                    f["%s%d" % (x, i)] = b.f["%s%d" % (x, min(i + 1, SLOTS - 1))]
            ex.store(o, Rec("$buf", f), st)
            return [(UNIT, st)]
        if n in ("emplace_back", "push_back"):
            t = self._v(ex, av[0], st)
            if not ex.provable(st, ln < SLOTS):
                raise Unsupported("more than %d tokens of look-ahead" % SLOTS)
            l, r = t.f["Range"].f["LCur"], t.f["Range"].f["RCur"]
            ex.ob(st, z3.And(wf(l), wf(r)), "a token looked ahead has consistent cursors", line, P5)
            f = {"len": simp(ln + 1)}
            for i in range(SLOTS):
                for x, v in (("k", t.f["Kind"]), ("l", off(l)), ("r", off(r))):
                    f["%s%d" % (x, i)] = simp(z3.If(ln == i, v, b.f["%s%d" % (x, i)]))
            ex.store(o, Rec("$buf", f), st)
            return [(UNIT, st)]
        raise Unsupported("std::deque::" + n)

    def c_stack(self, ex, st, o, av, e):
        n, line = e["name"], e.get("line")
        s = ex.load(o, st).f["s"]
        if n in ("push", "emplace"):
            v = self._v(ex, av[0], st)
            t = PUSH(s, v)
            st.assume(z3.And(TOP(t) == v, BELOW(t) == s, DEPTH(t) == DEPTH(s) + 1, DEPTH(s) >= 0))
            ex.store(o, Rec("$stack", {"s": t}), st)
            return [(UNIT, st)]
        if n == "pop":
            ex.ob(st, DEPTH(s) > 0, "the stack of states is not empty", line, P5)
            if z3.is_app(s) and s.decl().eq(PUSH):
                t = s.arg(0)
            else:
                t = BELOW(s)
            ex.store(o, Rec("$stack", {"s": t}), st)
            return [(UNIT, st)]
        if n == "top":
            ex.ob(st, DEPTH(s) > 0, "the stack of states is not empty", line, P5)
            return [(TOP(s), st)]
        if n in ("empty", "size"):
            return [(DEPTH(s) == 0 if n == "empty" else DEPTH(s), st)]
        raise Unsupported("std::stack::" + n)

    def c_multiset(self, ex, st, o, av, e):
        n, line = e["name"], e.get("line")
        a = ex.load(o, st).f["n"]
        if n in ("emplace", "insert"):
            k = self._v(ex, av[0], st)
            st.assume(z3.Select(a, k) >= 0)
            ex.store(o, Rec("$multiset", {"n": z3.Store(a, k, z3.Select(a, k) + 1)}), st)
            return [(UNIT, st)]
        if n == "find":
            k = self._v(ex, av[0], st)
            return [(MIt(o, k, z3.Select(a, k) <= 0), st)]
        if n == "contains":
            k = self._v(ex, av[0], st)
            return [(z3.Select(a, k) > 0, st)]
        if n == "erase":
            it = self._v(ex, av[0], st)
            if not isinstance(it, MIt):
                raise Unsupported("erasing every equal element")
            ex.ob(st, z3.Select(a, it.key) > 0, "the element erased is in the set", line, P5)
            b = z3.Store(a, it.key, z3.Select(a, it.key) - 1)
            if z3.is_store(a) and a.arg(1).eq(it.key):
                x = a.arg(2)
                if simp(x - 1).eq(simp(z3.Select(a.arg(0), it.key))):
                    b = a.arg(0)
            ex.store(o, Rec("$multiset", {"n": b}), st)
            return [(UNIT, st)]
        raise Unsupported("std::multiset::" + n)

    # -- diagnostics --------------------------------------------------------
    def emitted(self, ex, st, kind, r, line):
        """how often a report about formals was made at an offset"""
        kd = ex.db.enums["nixf::Diagnostic::DiagnosticKind"]
        a = off(r.f["LCur"])
        for n in TRACKED:
            g = simp(kind == kd[n])
            if z3.is_false(g):
                continue
            key = "$at:" + n
            if key in st.ghost:
                m = st.ghost[key]
                m2 = z3.Store(m, a, z3.Select(m, a) + 1)
                st.ghost[key] = m2 if z3.is_true(g) else z3.If(g, m2, m)
            else:
                ex.ob(st, z3.Not(g), "%s is reported by the checks of formals only" % n, line, P11)

    def newdiag(self, ex, st, cls, kind):
        st.ghost["$gen"] = simp(st.ghost["$gen"] + 1) if cls == "nixf::Diagnostic" else st.ghost["$gen"]
        loc = ex.newloc(st, Rec(cls, {"Kind": kind, "nargs": iv(0), "gen": st.ghost["$gen"], "nn": iv(0), "nf": iv(0)}), None, "$diag")
        st.ghost["$dl"] = st.ghost.get("$dl", ()) + (loc,)
        return loc

    def live(self, ex, st, o, line):
        v = ex.load(o, st)
        if isinstance(v, Rec) and "gen" in v.f:
            ex.ob(st, v.f["gen"] == st.ghost["$gen"], "the diagnostic written to was not moved by a later one", line, P5 + P14)
            if "up" in v.f:
                up = st.store[v.f["up"].root]
                ex.ob(st, up.f["nn" if v.cls == "nixf::Note" else "nf"] == v.f["at"], "the note or fix written to was not moved by a later one", line, P5 + P14)
        return v

    def do_note(self, ex, st, o, av, e):
        d = self.live(ex, st, o, e.get("line"))
        vs = [self._v(ex, a, st) for a in av]
        self.check_range(ex, st, vs[1], e.get("line"), "note")
        nn = simp(d.f["nn"] + 1)
        ex.store(o, d.with_("nn", nn), st)
        loc = self.newdiag(ex, st, "nixf::Note", simp(vs[0]))
        v = st.store[loc.root]
        st.store[loc.root] = Rec(v.cls, dict(v.f, up=LV(o.root), at=nn, gen=d.f["gen"]))
        return [(loc, st)]

    def do_fix(self, ex, st, o, av, e):
        d = self.live(ex, st, o, e.get("line"))
        nf = simp(d.f["nf"] + 1)
        ex.store(o, d.with_("nf", nf), st)
        return [(ex.newloc(st, Rec("nixf::Fix", {"edits": (), "up": LV(o.root), "at": nf, "gen": d.f["gen"]}), None, "$fix"), st)]

    def do_edit(self, ex, st, o, av, e):
        f = self.live(ex, st, o, e.get("line"))
        t = self._v(ex, av[0], st)
        r = t.f["OldRange"]
        self.check_range(ex, st, r, e.get("line"), "fix edit")
        a, b = off(r.f["LCur"]), off(r.f["RCur"])
        if isinstance(f, Rec) and "edits" in f.f:
            for c, d in f.f["edits"]:
                ex.ob(st, z3.Or(b <= c, d <= a), "edits of one fix do not overlap", e.get("line"), P14)
            ex.store(o, Rec(f.cls, dict(f.f, edits=f.f["edits"] + ((a, b),))), st)
        return [(o, st)]

    def do_arg(self, ex, st, o, av, e):
        v = self.live(ex, st, o, e.get("line"))
        ex.store(o, v.with_("nargs", simp(v.f["nargs"] + 1)), st)
        return [(o, st)]

    def path_end(self, ex, st, where):
        if self.placeholders:
            DiagMixin.path_end(self, ex, st, "return")

    # -- nodes --------------------------------------------------------------
    EXEMPT = {("nixf::ExprLegacyLet", "KwLet", "Attrs"), ("nixf::ExprLet", "KwLet", "Attrs"), ("nixf::ExprAttrs", "Body", "Rec")}
    OUTSIDE = {("nixf::ExprAttrs", "Rec")}

    def nodeptr(self, ex, Ty):
        return Ty.k == "rec" and Ty.q == "std::shared_ptr" and ex.heapclass(Ty.targs[0])

    def children(self, ex, Ty, v):
        """[(field, None | vector length, k -> reference, k -> present)] of the nodes an object owns"""
        out = []
        for cls, fd in ex.field_owner(Ty):
            t, x = fd["t"], v.f.get(fd["name"])
            if x is None or t.k != "rec":
                continue
            if self.nodeptr(ex, t):
                out.append((fd["name"], None, lambda k, x=x: x, lambda k: z3.BoolVal(True)))
            elif t.q == "std::vector" and t.targs and self.nodeptr(ex, t.targs[0]):
                out.append((fd["name"], x.len, lambda k, x=x: select(x.data[""], k), lambda k: z3.BoolVal(True)))
            elif t.q == "std::vector" and t.targs and t.targs[0].n == "nixf::InterpolablePart":
                ki = ex.db.enums["nixf::InterpolablePart::InterpolablePartKind"]["SPK_Interpolation"]
                out.append((fd["name"], x.len, lambda k, x=x: select(x.data[".Interp"], k), lambda k, x=x: select(x.data[".Kind"], k) == ki))
        return out

    def on_alloc(self, ex, Ty, v, ref, st):
        if not isinstance(v, Rec) or "Range" not in v.f or "Kind" not in v.f:
            return
        line = None
        cn = Ty.n.split("::")[-1]
        l, r = v.f["Range"].f["LCur"], v.f["Range"].f["RCur"]
        what = "new %s: " % cn
        for tag, f in (("its range has consistent cursors", z3.And(wf(l), wf(r))), ("its range is not reversed", off(l) <= off(r))):
            ex.ob(st, f, what + tag, line, P6)
        nk = ex.db.enums["nixf::Node::NodeKind"].get("NK_" + {"InterpolatedParts": "InterpolableParts"}.get(cn, cn))
        if nk is not None:
            ex.ob(st, v.f["Kind"] == nk, what + "its kind is that of its class", line, P6 + P5)
        if cn in ("Formals", "LambdaArg") and ex.curfn.startswith("nixf::Parser::"):
            ex.ob(st, z3.BoolVal(False), what + "made by the action that checks formals", line, P11)
        a, b = off(l), off(r)
        if self.synthetic(ex, Ty):      # for desugared code: its parts may lie elsewhere
            st.assume(z3.And(lo(ref) == a, hi(ref) == b))
            for nm, f in self.classinv(ex, Ty.n, ref):
                ex.ob(st, f, what + nm, line, P5)
            return
        cs = self.children(ex, Ty, v)
        obs = []
        inside = lambda n: z3.And(a <= lo(n), lo(n) <= hi(n), hi(n) <= b)
        for nm, ln, el, pres in cs:
            if ln is None:
                n = el(None)
                if z3.is_int_value(simp(n)) and ival(simp(n)) == 0:
                    continue
                f = inside(n)
                if (Ty.n, nm) in self.OUTSIDE:
                    f = z3.Or(f, z3.And(lo(n) <= hi(n), hi(n) <= a))
                obs.append((what + "%s lies inside it" % nm, z3.Implies(n != 0, f)))
            else:
                obs.append((what + "each of %s lies inside it" % nm, z3.Implies(z3.And(0 <= M, M < ln, pres(M)), z3.And(el(M) > 0, inside(el(M))))))
                obs.append((what + "%s are in source order and do not overlap" % nm, z3.Implies(z3.And(0 <= M, M < M2, M2 < ln, pres(M), pres(M2)), hi(el(M)) <= lo(el(M2)))))
        for i in range(len(cs)):
            for j in range(i + 1, len(cs)):
                (n1, l1, e1, p1), (n2, l2, e2, p2) = cs[i], cs[j]
                if (Ty.n, n1, n2) in self.EXEMPT:
                    continue
                x, y = e1(M), e2(M2)
                g = z3.And(x != 0, y != 0)
                if l1 is not None:
                    g = z3.And(g, 0 <= M, M < l1, p1(M))
                if l2 is not None:
                    g = z3.And(g, 0 <= M2, M2 < l2, p2(M2))
                if z3.is_false(simp(g)):
                    continue
                obs.append((what + "%s and %s do not overlap" % (n1, n2), z3.Implies(g, z3.Or(hi(x) <= lo(y), hi(y) <= lo(x)))))
        for nm, f in obs:
            ex.ob(st, f, nm, line, P6)
        for nm, f in self.classinv(ex, Ty.n, ref):
            ex.ob(st, f, what + nm, line, P11 + P5 if Ty.n == "nixf::Formals" else P5)
        for nm, ln, el, pres in cs:
            if ln is not None:
                for m, f in self.eleminv(ex, "F!%s.%s.[]" % (Ty.n, nm), ref, el(M)):
                    if m != "each lies inside":      # an obligation already
                        ex.ob(st, z3.Implies(z3.And(0 <= M, M < ln), f), what + m, line, P5)
        # what is known of the node from here on
        st.assume(z3.And(lo(ref) == a, hi(ref) == b))

    def siblings(self, ex, cls, n):
        """the nodes a node made by the parser holds do not overlap"""
        from .driver import RecType
        fs = [fd["name"] for c, fd in ex.field_owner(RecType(cls)) if fd["t"].k == "rec" and self.nodeptr(ex, fd["t"])]
        out = []
        for i, x in enumerate(fs):
            for y in fs[i + 1:]:
                if (cls, x, y) not in self.EXEMPT:
                    a, b = (z3.Function("F!%s.%s" % (cls, f), I, I)(n) for f in (x, y))
                    out.append(z3.Implies(z3.And(a != 0, b != 0), z3.Or(hi(a) <= lo(b), hi(b) <= lo(a))))
        g = z3.Function("F!nixf::ExprSelect.DesugaredFrom", I, I)(n) == 0 if cls == "nixf::ExprSelect" else None
        return [z3.Implies(g, f) for f in out] if g is not None else out

    def synthetic(self, ex, Ty):
        return Ty.n in self.SHARED and any("desugarInheritExpr" in x or "selectOrCreate" in x for x in ex.callstack + [ex.curfn])

    # -- loops --------------------------------------------------------------
    def pview(self, ex, st):
        c = ex.topctx
        if c is None or not isinstance(c.this, LV):
            return None
        v = st.store.get(c.this.root)
        for p in c.this.path:
            v = v.f[p[1]]
        if not isinstance(v, Rec) or v.cls != "nixf::Parser":
            return None
        return PV(v)

    def loop_candidates(self, ex, s, entry, mod, roots):
        out = []
        if ex.topctx.contract.q == MergeFragments.q:
            kd = ex.topctx.oldarg(0).data[".Kind"]
            K = ex.db.enums["nixf::InterpolablePart::InterpolablePartKind"]
            x = z3.Int("all_x")
            for r in sorted(r for r, _ in mod if ex.locname.get(r) == "$idx"):
                out.append(("the parts seen are text", lambda st, r=r: z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < st.store[r]), z3.Select(kd, x) != K["SPK_Interpolation"]), patterns=[z3.Select(kd, x)])))
            return out
        if ex.topctx.contract.q in TRACKING:
            return self.formal_candidates(ex, entry, mod, roots)
        if self.pview(ex, entry) is None:
            return out
        pv = lambda st: self.pview(ex, st)
        e0, f0 = pv(entry), ex.pv0
        names = [n for n, _ in INV(ex, e0)]
        for i, n in enumerate(names):
            out.append((n, lambda st, i=i: INV(ex, pv(st))[i][1]))
        out.append(("something was consumed", lambda st: pv(st).has))
        out.append(("consumed stays consumed", lambda st: z3.Implies(e0.has, pv(st).has)))
        out.append(("nothing is given back", lambda st: z3.And(pv(st).fl >= e0.fl, pv(st).fl >= f0.fl)))
        out.append(("something was consumed since the start", lambda st: pv(st).fl > f0.fl))
        out.append(("the position does not move back", lambda st: z3.And(pv(st).pos >= e0.pos, pv(st).pos >= f0.pos)))
        out.append(("nothing is looked ahead", lambda st: pv(st).len == 0))
        out.append(("a token is looked ahead", lambda st: pv(st).len > 0))
        out.append(("the lexer stands at the last token's end", lambda st: z3.Implies(pv(st).len == 0, off(pv(st).cur) == pv(st).fl)))
        out.append(("diagnostics only grow", lambda st: st.ghost["$gen"] >= entry.ghost["$gen"]))
        if ex.topctx.contract.q == "nixf::Parser::peek":
            n = ex.topctx.args[0]
            eq = lambda p, x, i: p.b["%s%d" % (x, i)] == e0.b["%s%d" % (x, i)]

            def onemore(st):
                p = pv(st)
                rest = z3.And(same_buf(p, e0), off(p.cur) == off(e0.cur), st.ghost["$gen"] == entry.ghost["$gen"])
                return z3.Or(rest, z3.And(e0.len == n, p.len == n + 1, *[z3.Or(n == i, eq(p, x, i)) for x in "klr" for i in range(SLOTS)],
                                          z3.Implies(e0.top != ps(ex, "Expr"), p.at("l", n) == off(e0.cur)),
                                          z3.Implies(z3.And(e0.top == ps(ex, "Path"), pst(off(e0.cur))), p.at("k", n) == T(ex, "path_fragment")[0])))
            out.append(("one more token at most", onemore))
        for r in sorted({r for r, _ in mod if r not in ("heap", "ghost")}, key=str):
            if r == ex.topctx.this.root:
                continue
            v0 = entry.store.get(r)
            nm = ex.locname.get(r) or "v"
            if isinstance(v0, Rec) and v0.cls == "nixf::Token":
                def same(st, r=r):
                    t, p = st.store[r], pv(st)
                    return z3.And(p.len > 0, t.f["Kind"] == p.k(0), off(t.f["Range"].f["LCur"]) == p.l(0), off(t.f["Range"].f["RCur"]) == p.r(0), t.f["Range"].f["LCur"].f["wf"], t.f["Range"].f["RCur"].f["wf"])
                out.append(("%s is the next token" % nm, same))
            elif isinstance(v0, Rec) and v0.cls == "nixf::LexerCursor":
                out.append(("%s is set" % nm, lambda st, r=r: wf(st.store[r])))
                out.append(("%s is the end of the last token" % nm, lambda st, r=r: z3.And(off(st.store[r]) == pv(st).fl, wf(st.store[r]))))
                vs = [q for q, x in entry.store.items() if isinstance(x, Vec) and (q, ".len") in mod]
                for q in vs:
                    out.append(("%s is the end of the last token once there are %s" % (nm, ex.locname.get(q)), lambda st, r=r, q=q: z3.Implies(st.store[q].len > 0, z3.And(off(st.store[r]) == pv(st).fl, wf(st.store[r]), pv(st).has))))
                    out.append(("without %s the position has not moved" % ex.locname.get(q), lambda st, r=r, q=q: z3.Implies(st.store[q].len == 0, z3.And(pv(st).fl == e0.fl, pv(st).len == e0.len, off(pv(st).cur) == off(e0.cur), *[pv(st).b[k] == e0.b[k] for k in e0.b]))))
                    out.append(("without %s a fragment starts here" % ex.locname.get(q), lambda st, r=r, q=q: z3.Implies(st.store[q].len == 0, z3.And(pv(st).len == 0, pst(off(pv(st).cur))))))
                    out.append(("with %s the position has moved" % ex.locname.get(q), lambda st, r=r, q=q: z3.Implies(st.store[q].len > 0, pv(st).fl >= e0.pos)))
                    out.append(("with %s the position is further on" % ex.locname.get(q), lambda st, r=r, q=q: z3.Implies(st.store[q].len > 0, pv(st).fl > e0.pos)))
                    out.append(("without %s nothing is consumed" % ex.locname.get(q), lambda st, r=r, q=q: z3.Implies(st.store[q].len == 0, z3.And(pv(st).fl == e0.fl, z3.Implies(pv(st).len > 0, pst(pv(st).l(0))), z3.Implies(pv(st).len == 0, pst(off(pv(st).cur)))))))
            elif isinstance(v0, Vec):
                out += self.vec_candidates(ex, pv, e0, f0, r, v0, nm, mod, entry)
            elif z3.is_expr(v0) and v0.sort() == B:
                out.append(("%s: more than the first token was consumed" % nm, lambda st, r=r: z3.Implies(st.store[r], pv(st).fl > e0.pos)))
                out.append(("%s: something was consumed" % nm, lambda st, r=r: z3.If(st.store[r], z3.And(pv(st).has, pv(st).fl > e0.fl), z3.And(pv(st).fl == e0.fl, pv(st).has == e0.has))))
            elif z3.is_expr(v0) and v0.sort() == I:
                out.append(("%s is not negative" % nm, lambda st, r=r: st.store[r] >= 0))
                out.append(("%s is an object" % nm, lambda st, r=r: st.store[r] > 0))
                out.append(("%s is not empty" % nm, lambda st, r=r: z3.Implies(st.store[r] != 0, lo(st.store[r]) < hi(st.store[r]))))
                out.append(("%s is an object that was read" % nm, lambda st, r=r: z3.Implies(st.store[r] != 0, z3.And(st.store[r] > 0, lo(st.store[r]) >= f0.pos, lo(st.store[r]) <= hi(st.store[r]), hi(st.store[r]) <= pv(st).fl))))
        return out

    def formal_candidates(self, ex, entry, mod, roots):
        """the reports made so far are those about the formals before each index"""
        out = []
        c = ex.topctx
        i = getattr(c.contract, "i", None)
        if i is None:
            return out
        v = c.oldarg(i)
        a, n = v.data[""], v.len
        leaves = ex.state_leaves(entry, roots)
        for k in sorted((k for k in mod if k[0] not in ("heap", "ghost") and k in leaves and z3.is_expr(leaves[k]) and leaves[k].sort() == I), key=str):
            at = lambda st, k=k: ex.leaf_get(st, k)
            out.append(("%s is an index" % ex.leafname(k), lambda st, at=at: z3.And(0 <= at(st), at(st) <= n)))
            out.append(("%s is before the end" % ex.leafname(k), lambda st, at=at: z3.Implies(n > 0, z3.And(0 <= at(st), at(st) < n))))
            for nm, f in (("FormalMissingComma", lambda o, x: SEPS(a, x, o)), ("FormalExtraEllipsis", lambda o, x: EXTRA(a, n, x, o)), ("FormalMisplacedEllipsis", lambda o, x: MISPLACED(a, n, x, o)),
                          ("EmptyFormal", lambda o, x: EMPTY(a, x, o)), ("DuplicatedFormal", lambda o, x: DUPS(a, x, o))):
                g = "$at:DK_" + nm
                out.append(("%s reported before %s" % (nm, ex.leafname(k)), lambda st, at=at, f=f, g=g: st.ghost[g] == f(entry.ghost[g], at(st))))
            for r, m in sorted(((r, m) for r, m in entry.store.items() if isinstance(m, Map) and "" in m.data and m.has.sort() == NAMES), key=str):
                out.append(("%s knows the names before %s" % (ex.locname.get(r), ex.leafname(k)),
                            lambda st, at=at, r=r, m=m: z3.And(st.store[r].has == has(a, at(st)), st.store[r].data[""] == BY(a, at(st), m.data[""]))))
        for nm in TRACKED:
            out.append(("%s not reported" % nm, lambda st, nm=nm: st.ghost["$at:" + nm] == entry.ghost["$at:" + nm]))
        out.append(("diagnostics only grow", lambda st: st.ghost["$gen"] >= entry.ghost["$gen"]))
        return out

    def map_read(self, ex, m, key, st):
        """names looked up in the tables of formals: what being in a table means"""
        t = m.has
        if t.sort() != NAMES:
            return
        if z3.is_app(t) and t.decl().name() == "F!nixf::Formals.Dedup.has":
            n = t.arg(0)
            for nm, f in self.classinv(ex, "nixf::Formals", n, key):
                st.assume(f)
            a, ln = z3.Function("F!nixf::Formals.Members.[]", I, ARR)(n), z3.Function("F!nixf::Formals.Members.len", I, I)(n)
            r = FIRST(a, ln, key)
            st.assume(z3.And(*_first(a, ln, key)[:-1]))
            st.assume(z3.Implies(r >= 0, z3.And(a[r] > 0, nkind(a[r]) == ex.db.enums["nixf::Node::NodeKind"]["NK_Formal"])))
        elif ex.topctx is not None and isinstance(ex.topctx.contract, DedupFormal):
            v, b = ex.topctx.oldarg(1), ex.topctx.oldarg(0)
            for x in self.indices(ex, st):
                st.assume(z3.And(*_first(v.data[""], x, key)[:-1], *_byat(v.data[""], x, key, b.data[""])[:-1]))

    def indices(self, ex, st):
        out = []
        for r, x in st.store.items():
            for y in ([x] if z3.is_expr(x) else [x.idx] if isinstance(x, It) else []):
                if y.sort() == I and not is_const_int(simp(y)) and ex.locname.get(r) is not None:
                    out.append(y)
        return out[-4:]

    def vec_candidates(self, ex, pv, e0, f0, r, v0, nm, mod, entry):
        out = []
        et = v0.et
        parts = et.k == "rec" and et.n == "nixf::InterpolablePart"
        if parts:
            K = ex.db.enums["nixf::InterpolablePart::InterpolablePartKind"]
            el = lambda st, k: select(st.store[r].data[".Interp"], k)
            pres = lambda st, k: select(st.store[r].data[".Kind"], k) == K["SPK_Interpolation"]
            out.append(("%s are text or interpolations" % nm, lambda st: z3.Implies(z3.And(0 <= M, M < st.store[r].len), z3.Or(pres(st, M), select(st.store[r].data[".Kind"], M) == K["SPK_Escaped"]))))
        elif "" in v0.data:
            el = lambda st, k: select(st.store[r].data[""], k)
            pres = lambda st, k: z3.BoolVal(True)
        else:
            return out
        inr = lambda st, k: z3.And(0 <= k, k < st.store[r].len, pres(st, k))
        last = lambda st: el(st, st.store[r].len - 1)
        out.append(("%s: a length" % nm, lambda st: z3.And(st.store[r].len >= 0, st.store[r].len >= v0.len)))
        out.append(("%s are objects that were read" % nm, lambda st: z3.Implies(inr(st, M), z3.And(el(st, M) > 0, lo(el(st, M)) <= hi(el(st, M)), hi(el(st, M)) <= pv(st).fl))))
        out.append(("%s, second: objects that were read" % nm, lambda st: z3.Implies(inr(st, M2), z3.And(el(st, M2) > 0, lo(el(st, M2)) <= hi(el(st, M2)), hi(el(st, M2)) <= pv(st).fl))))
        out.append(("%s start after the function's start" % nm, lambda st: z3.Implies(inr(st, M), lo(el(st, M)) >= f0.pos)))
        out.append(("%s, second: start after the function's start" % nm, lambda st: z3.Implies(inr(st, M2), lo(el(st, M2)) >= f0.pos)))
        out.append(("%s start after the loop's start" % nm, lambda st: z3.Implies(inr(st, M), lo(el(st, M)) >= e0.pos)))
        out.append(("%s, second: start after the loop's start" % nm, lambda st: z3.Implies(inr(st, M2), lo(el(st, M2)) >= e0.pos)))
        if not parts:
            out.append(("the first of %s stays" % nm, lambda st: z3.Implies(v0.len > 0, el(st, iv(0)) == select(v0.data[""], iv(0)))))
            out.append(("%s start after the first" % nm, lambda st: z3.Implies(inr(st, M), lo(el(st, M)) >= lo(el(st, iv(0))))))
            out.append(("%s, second: start after the first" % nm, lambda st: z3.Implies(inr(st, M2), lo(el(st, M2)) >= lo(el(st, iv(0))))))
        out.append(("%s are in source order" % nm, lambda st: z3.Implies(z3.And(inr(st, M), inr(st, M2), M < M2), hi(el(st, M)) <= lo(el(st, M2)))))
        if not parts:
            out.append(("the last of %s is an object" % nm, lambda st: z3.Implies(st.store[r].len > 0, z3.And(last(st) > 0, lo(last(st)) <= hi(last(st)), hi(last(st)) <= pv(st).fl, lo(last(st)) >= e0.pos))))
            out.append(("%s end before the last" % nm, lambda st: z3.Implies(inr(st, M), hi(el(st, M)) <= hi(last(st)))))
            kd = self.kindof(ex, et.targs[0]) if self.nodeptr(ex, et) else None
            if kd is not None:
                out.append(("%s are of their kind" % nm, lambda st: z3.Implies(inr(st, M), nkind(el(st, M)) == kd)))
                if et.targs[0].n.split("::")[-1] in self.NONEMPTY:
                    out.append(("%s are not empty" % nm, lambda st: z3.Implies(inr(st, M), lo(el(st, M)) < hi(el(st, M)))))
            if et.k == "rec" and et.targs and et.targs[0].n in ("nixf::Node", "nixf::Expr"):
                out.append(("%s are not empty" % nm, lambda st: z3.Implies(inr(st, M), lo(el(st, M)) < hi(el(st, M)))))
                out.append(("the last of %s is not empty" % nm, lambda st: z3.Implies(st.store[r].len > 0, lo(last(st)) < hi(last(st)))))
            if et.k == "rec" and et.targs and et.targs[0].n == "nixf::Node":
                nk = ex.db.enums["nixf::Node::NodeKind"]
                out.append(("%s are bindings or inherits" % nm, lambda st: z3.Implies(inr(st, M), z3.Or(nkind(el(st, M)) == nk["NK_Binding"], nkind(el(st, M)) == nk["NK_Inherit"]))))
        out.append(("with %s something was consumed" % nm, lambda st: z3.Implies(st.store[r].len > 0, z3.And(pv(st).has, pv(st).fl > e0.fl))))
        out.append(("%s, of the start: something was consumed" % nm, lambda st: z3.Implies(st.store[r].len > 0, z3.And(pv(st).has, pv(st).fl > f0.fl))))
        out.append(("there are %s" % nm, lambda st: st.store[r].len > 0))
        # two lists read in turn
        for q, x in entry.store.items():
            if q != r and isinstance(x, Vec) and (q, ".len") in mod and "" in x.data and "" in v0.data:
                eq = lambda st, k, q=q: select(st.store[q].data[""], k)
                out.append(("%s and %s do not overlap" % (nm, ex.locname.get(q)), lambda st, q=q, eq=eq: z3.Implies(z3.And(inr(st, M), 0 <= M2, M2 < st.store[q].len), z3.Or(hi(el(st, M)) <= lo(eq(st, M2)), hi(eq(st, M2)) <= lo(el(st, M))))))
        return out

    def measures(self, ex, entry, mod, roots):
        out = []
        if self.pview(ex, entry) is not None:
            out.append(("room in the buffer", lambda st: SLOTS - self.pview(ex, st).len))
            out.append(("bytes left", lambda st: N - self.pview(ex, st).fl))
            for r in sorted({r for r, _ in mod if r not in ("heap", "ghost")}, key=str):
                v0 = entry.store.get(r)
                if z3.is_expr(v0) and v0.sort() == I:
                    out.append((ex.locname.get(r) or "v", lambda st, r=r: st.store[r]))
        return out


# -- the lexer, as the parser sees it ------------------------------------------
class LexFn(Contract):
    scc = None

    def __init__(self, name, state):
        self.q, self.state = "nixf::Lexer::" + name, state

    def requires(self, c):
        return [("cursor well-formed", wf(c.get("Cur")), P5)]

    def modifies(self, c):
        return [c.path(c.this, "Cur"), c.path(c.this, "Tok"), c.path(c.this, "TokStartPtr")]

    def result(self, c, T, e):
        bump(c)
        return c.ex.fresh(T, "tok", c.st)

    def ensures(self, c):
        k, t = c.get("Cur"), c.ret
        o = off(c.oldv("Cur"))
        l, r = t.f["Range"].f["LCur"], t.f["Range"].f["RCur"]
        return weak(c.ex, self.state, o, t.f["Kind"], l, r, k)


def weak(ex, state, o, kind, l, r, cur):
    es = [("cursor well-formed", wf(cur)), ("cursor is at the token's end", off(cur) == off(r)),
          ("token starts after the cursor", off(l) >= o if state == "Expr" else off(l) == o),
          ("token", tokfacts(ex, iv(ps(ex, state)), kind, off(l), off(r)))]
    if state == "Path":
        es.append(("a path fragment that starts is one", z3.Implies(pst(o), kind == T(ex, "path_fragment")[0])))
    return es


def bump(c):
    g = c.ex.const("gen", I)
    if c.old is not None:
        c.st.assume(g >= c.old.ghost["$gen"])
    c.st.ghost["$gen"] = g
    c.ex.spec.called(c)


class SetCur(Contract):
    q = "nixf::Lexer::setCur"

    def requires(self, c):
        return [("new cursor well-formed", wf(c.arg(0)), P5)]

    def modifies(self, c):
        return [c.path(c.this, "Cur")]

    def ensures(self, c):
        k, a = c.get("Cur"), c.arg(0)
        return [("cursor is the given one", z3.And(wf(k), off(k) == off(a)))]


# -- parser functions -------------------------------------------------------------
class PFn(Contract):
    ghost_ok = True
    touched = ("LookAheadBuf", "LastToken", "Lex.Cur", "Lex.Tok", "Lex.TokStartPtr")

    def setup(self, c):
        c.ex.pv0 = self.pv(c)

    def pv(self, c, st=None):
        return PV(c.ex.load(c.this, st or c.st))

    def modifies(self, c):
        return [c.path(c.this, p) for p in self.touched] + [ATTRSETS]

    def requires(self, c):
        p = self.pv(c)
        return [(n, f, P5) for n, f in INV(c.ex, p)]

    def ensures(self, c):
        p, q = self.pv(c), self.pv(c, c.old)
        return [(n, f, P5) for n, f in INV(c.ex, p)] + [
            ("consumed stays consumed", z3.Implies(q.has, p.has), P5), ("nothing is given back", p.fl >= q.fl, P5),
            ("the position does not move back", p.pos >= q.pos, P5),
            ("diagnostics only grow", c.st.ghost["$gen"] >= c.old.ghost["$gen"], P14)]

    def result(self, c, T, e):
        bump(c)
        return Contract.result(self, c, T, e)


class Peek(PFn):
    q = "nixf::Parser::peek"
    touched = ("LookAheadBuf", "Lex.Cur", "Lex.Tok", "Lex.TokStartPtr")

    def requires(self, c):
        p, n = self.pv(c), c.arg(0)
        rq = PFn.requires(self, c)
        rq.append(("look-ahead is one token at a time", z3.And(0 <= n, n < SLOTS, n <= p.len), P5))
        for i in range(SLOTS - 1):
            rq.append(("what stands before a token looked ahead to is plain (%d)" % i, z3.Implies(n > i, z3.And(isk(c.ex, p.k(i), CONT), p.top == ps(c.ex, "Expr"))), P5))
        return rq

    def shortcut(self, c):
        p, n = self.pv(c), simp(c.arg(0))
        if is_const_int(n) and 0 <= ival(n) < SLOTS:
            g = simp(p.len > n)
            if z3.is_true(g) or (not z3.is_false(g) and c.ex.provable(c.st, g)):
                return [(p.tok(ival(n)), c.st)]
        return None

    def result(self, c, T, e):
        ex, st = c.ex, c.st
        n = simp(c.arg(0))
        if not is_const_int(n):
            raise Unsupported("look-ahead by a variable distance")
        n = ival(n)
        q = self.pv(c, c.old)
        more = simp(q.len > n)
        f = dict(q.b)
        for x in "klr":
            f["%s%d" % (x, n)] = ex.const("%s%d" % (x, n), I)
        f["len"] = simp(z3.If(more, q.len, iv(n + 1)))
        ex.store(c.path(c.this, "LookAheadBuf"), Rec("$buf", f), st)
        ex.store(c.path(c.this, "Lex.Cur"), cursor(z3.If(more, off(q.cur), f["r%d" % n]) if not z3.is_false(more) else f["r%d" % n]), st)
        bump(c)
        st.assume(z3.Implies(more, st.ghost["$gen"] == c.old.ghost["$gen"]))
        return self.pv(c).tok(n)

    def ensures(self, c):
        p, q, n = self.pv(c), self.pv(c, c.old), c.oldarg(0)
        t = c.ret
        more = q.len > n
        es = PFn.ensures(self, c)
        es.append(("length of the look-ahead", p.len == z3.If(more, q.len, n + 1), P5))
        for i in range(SLOTS):
            es.append(("other tokens looked ahead stay (%d)" % i, z3.Implies(z3.Or(n != i, more), z3.And(*[p.b["%s%d" % (x, i)] == q.b["%s%d" % (x, i)] for x in "klr"])), P5))
        es.append(("the lexer rests", z3.Implies(more, off(p.cur) == off(q.cur)), P5))
        es.append(("no diagnostic without lexing", z3.Implies(more, c.st.ghost["$gen"] == c.old.ghost["$gen"]), P14))
        l, r = t.f["Range"].f["LCur"], t.f["Range"].f["RCur"]
        es.append(("the token is the one asked for", z3.And(wf(l), wf(r), t.f["Kind"] == p.at("k", n), off(l) == p.at("l", n), off(r) == p.at("r", n)), P5))
        es.append(("outside expressions nothing is skipped", z3.Implies(z3.And(p.top != ps(c.ex, "Expr"), n == 0), p.pos == q.pos), P5))
        es.append(("a path fragment that starts is one", z3.Implies(z3.And(p.top == ps(c.ex, "Path"), q.len == 0, n == 0, pst(off(q.cur))), p.k(0) == T(c.ex, "path_fragment")[0]), P5))
        return es


class Reset(PFn):
    q = "nixf::Parser::resetLookAheadBuf"
    touched = ("LookAheadBuf", "Lex.Cur")

    def requires(self, c):
        # the stack may still be empty (the constructor), or about to change
        return [x for x in PFn.requires(self, c) if x[0] != "the parser has a state" and not x[0].startswith("token ")] + \
               [("tokens looked ahead start in the source", z3.Implies(self.pv(c).len > 0, z3.And(0 <= self.pv(c).l(0), self.pv(c).l(0) <= N)), P5)]

    def result(self, c, T, e):
        q = self.pv(c, c.old)
        ex, st = c.ex, c.st
        ex.store(c.path(c.this, "LookAheadBuf"), Rec("$buf", dict(q.b, len=iv(0))), st)
        ex.store(c.path(c.this, "Lex.Cur"), cursor(simp(q.pos)), st)
        return UNIT

    def ensures(self, c):
        p, q = self.pv(c), self.pv(c, c.old)
        return [("nothing is looked ahead", p.len == 0, P5), ("the lexer is back at the first token", z3.And(wf(p.cur), off(p.cur) == q.pos), P5)]


def notpath(c, p):
    return ("not inside a path", p.top != ps(c.ex, "Path"), P5)


class ConsumeAsUnknown(PFn):
    q = "nixf::Parser::consumeAsUnknown"

    def requires(self, c):
        return PFn.requires(self, c) + [notpath(c, self.pv(c))]

    def ensures(self, c):
        p, q = self.pv(c), self.pv(c, c.old)
        l, r = c.ret.val.f["LCur"], c.ret.val.f["RCur"]
        return PFn.ensures(self, c) + [
            ("what was consumed", z3.Implies(c.ret.has, z3.And(p.has, p.fl > q.fl, wf(l), wf(r), off(l) >= q.pos, off(l) < off(r), off(r) == p.fl)), P5),
            ("nothing consumed", z3.Implies(z3.Not(c.ret.has), z3.And(p.fl == q.fl, p.has == q.has)), P5)]


class RemoveUnexpected(PFn):
    q = "nixf::Parser::removeUnexpected"

    def requires(self, c):
        return PFn.requires(self, c) + [notpath(c, self.pv(c))]

    def ensures(self, c):
        p, q = self.pv(c), self.pv(c, c.old)
        return PFn.ensures(self, c) + [
            ("what was consumed", z3.Implies(c.ret, z3.And(p.has, p.fl > q.fl)), P5),
            ("nothing consumed", z3.Implies(z3.Not(c.ret), z3.And(p.fl == q.fl, p.has == q.has)), P5)]


class Spelling(Contract):
    q = "nixf::tok::spelling"

    def shortcut(self, c):
        k = simp(c.args[0]) if z3.is_expr(c.args[0]) else None
        f = c.ex.db.byq.get(self.q, [None])[0]
        if k is not None and is_const_int(k) and f is not None and f.get("body") is not None:
            return c.ex.inline(f, None, [k], c.st, {"line": None})
        return None

    def has(self, c, k):
        ex = c.ex
        key = id(ex.db)
        if key not in _TK:
            f = ex.db.byq[self.q][0]
            good = []
            for n, v in sorted(ex.db.enums["nixf::tok::TokenKind"].items()):
                st = spell_state()
                ex.quiet += 1
                try:
                    rs = ex.inline(f, None, [iv(v)], st, {"line": None})
                finally:
                    ex.quiet -= 1
                if len(rs) == 1 and isinstance(rs[0][0], Str) and rs[0][0].concrete():
                    good.append(v)
            _TK[key] = good
        return z3.Or(*[k == v for v in _TK[key]])

    def ensures(self, c):
        return [("a token's spelling is not empty", z3.Implies(self.has(c, c.oldarg(0)), c.ret.len > 0), P14)]


def spell_state():
    from .exec import State
    s = State()
    s.ghost["$gen"] = iv(0)
    s.ghost["$dl"] = ()
    return s


SPELL = Spelling()


class Expect(PFn):
    q = "nixf::Parser::expect"
    outcomes = ("ok", "missing")

    def requires(self, c):
        k = c.arg(0)
        return PFn.requires(self, c) + [notpath(c, self.pv(c)), ("the token expected has a spelling", SPELL.has(c, k), P14)]

    def result(self, c, T, e):
        ex, st = c.ex, c.st
        bump(c)
        if c.outcome == "ok":
            return Rec("nixf::Parser::ExpectResult", {"Success": z3.BoolVal(True), "Tok": Opt(z3.BoolVal(True), self.pv(c).tok(0), None), "DiagMissing": Ptr(None)})
        g = st.ghost["$gen"]
        k = ex.db.enums["nixf::Diagnostic::DiagnosticKind"]["DK_Expected"]
        loc = ex.newloc(st, Rec("nixf::Diagnostic", {"Kind": iv(k), "nargs": iv(1), "gen": g, "nn": iv(0), "nf": iv(1)}), None, "$diag")
        st.ghost["$dl"] = st.ghost.get("$dl", ()) + (loc,)
        return Rec("nixf::Parser::ExpectResult", {"Success": z3.BoolVal(False), "Tok": Opt(z3.BoolVal(False), self.pv(c).tok(0), None), "DiagMissing": Ptr(loc)})

    def ensures(self, c):
        p, q = self.pv(c), self.pv(c, c.old)
        v = c.ret
        ok = v.f["Success"]
        t = v.f["Tok"]
        l, r = t.val.f["Range"].f["LCur"], t.val.f["Range"].f["RCur"]
        es = PFn.ensures(self, c)
        es.append(("found: the token is the next one", z3.Implies(ok, z3.And(t.has, p.len > 0, t.val.f["Kind"] == c.oldarg(0), p.k(0) == c.oldarg(0), off(l) == p.l(0), off(r) == p.r(0), wf(l), wf(r))), P5))
        es.append(("found at once when it is next", z3.Implies(z3.And(q.len > 0, q.k(0) == c.oldarg(0)), z3.And(ok, p.fl == q.fl, p.has == q.has, off(p.cur) == off(q.cur), same_buf(p, q))), P5))
        d = v.f["DiagMissing"]
        if isinstance(d, Ptr) and d.lv is not None:
            x = c.ex.load(d.lv, c.st)
            es.append(("missing: a diagnostic says so", z3.And(x.f["nargs"] == 1, x.f["gen"] == c.st.ghost["$gen"], x.f["Kind"] == c.ex.db.enums["nixf::Diagnostic::DiagnosticKind"]["DK_Expected"]), P14))
        else:
            es.append(("missing: a diagnostic says so", ok, P14))
        return es


class ParseFn(PFn):
    scc = "parse"

    def __init__(self, name, rank, cls=None, first=None, nonnull=False, state="Expr"):
        self.q, self.rank, self.cls, self.first, self.nonnull, self.state = "nixf::Parser::" + name, rank, cls, first, nonnull, state

    def measure(self, c):
        return [N - self.pv(c).fl, iv(self.rank)]

    def requires(self, c):
        p = self.pv(c)
        rq = PFn.requires(self, c)
        if self.state:
            rq.append(("expressions are being parsed", p.top == ps(c.ex, self.state), P5))
        if self.first:
            rq.append(("called at its first token", z3.And(p.len >= 1, isk(c.ex, p.k(0), self.first)), P5))
        return rq

    def ensures(self, c):
        p, q, n = self.pv(c), self.pv(c, c.old), c.ret
        es = PFn.ensures(self, c)
        es.append(("null or an object", n > 0 if self.nonnull else n >= 0, P5))
        f = [p.has, q.pos <= lo(n), lo(n) <= hi(n), hi(n) <= p.fl]
        if self.moves:
            f.append(p.fl > q.fl)
        if self.cls in ParserSpec.NONEMPTY or self.cls is None:
            f.append(lo(n) < hi(n))
        es.append(("the node covers what was read", z3.Implies(n != 0, z3.And(*f)), P6 + P5))
        if self.cls:
            es.append(("the node's kind", z3.Implies(n != 0, nkind(n) == c.ex.db.enums["nixf::Node::NodeKind"]["NK_" + self.cls]), P5))
        return es

    moves = True


class StringParts(ParseFn):
    moves = False

    def requires(self, c):
        p = self.pv(c)
        return PFn.requires(self, c) + [("inside a string", z3.Or(p.top == ps(c.ex, "String"), p.top == ps(c.ex, "IndString")), P5),
                                        ("right after what was consumed", z3.And(p.has, p.len == 0, off(p.cur) == p.fl), P5)]

    def ensures(self, c):
        p, q = self.pv(c), self.pv(c, c.old)
        return ParseFn.ensures(self, c) + [("ends where it stands", hi(c.ret) == p.fl, P6)]


class LegacyLet(ParseFn):
    def requires(self, c):
        p = self.pv(c)
        return ParseFn.requires(self, c) + [("a brace follows", z3.And(p.len >= 2, isk(c.ex, p.k(1), ("l_curly",))), P5)]


class ParseString(ParseFn):
    def requires(self, c):
        p, b = self.pv(c), c.arg(0)
        d, q = T(c.ex, "dquote", "quote2")
        return ParseFn.requires(self, c) + [("called at its quote", z3.And(p.len >= 1, p.k(0) == z3.If(b, iv(q), iv(d))), P5)]


class App(ParseFn):
    def requires(self, c):
        return ParseFn.requires(self, c) + [("the limit is not negative", c.arg(0) >= 0, P5)]


class FormalsFn(ParseFn):
    def ensures(self, c):
        q = self.pv(c, c.old)
        return ParseFn.ensures(self, c) + [("at a brace there are formals", z3.Implies(z3.And(q.len > 0, q.k(0) == T(c.ex, "l_curly")[0]), c.ret != 0), P5)]


PARSE = [ParseFn("parseExpr", 10), ParseFn("parseExprLambda", 9, "ExprLambda", ("id", "l_curly")),
         ParseFn("parseExprIf", 9, "ExprIf", ("kw_if",), True), ParseFn("parseExprAssert", 9, "ExprAssert", ("kw_assert",), True),
         ParseFn("parseExprLet", 9, "ExprLet", ("kw_let",), True), LegacyLet("parseExprLegacyLet", 9, "ExprLegacyLet", ("kw_let",), True),
         ParseFn("parseExprWith", 9, "ExprWith", ("kw_with",), True), ParseFn("parseExprOpBP", 9),
         App("parseExprApp", 7), ParseFn("parseExprSelect", 6), ParseFn("parseExprSimple", 5),
         ParseFn("parseExprParen", 4, "ExprParen", ("l_paren",), True), ParseFn("parseExprList", 4, "ExprList"),
         ParseFn("parseExprAttrs", 4, "ExprAttrs", ("kw_rec", "l_curly"), True), ParseFn("parseExprPath", 4, "ExprPath", ("path_fragment",), True),
         ParseString("parseString", 4, "ExprString", None, True), StringParts("parseStringParts", 4, "InterpolableParts", None, True, None),
         ParseFn("parseInterpolation", 3, "Interpolation", ("dollar_curly",), True, None),
         ParseFn("parseAttrName", 5, "AttrName"), ParseFn("parseAttrPath", 6, "AttrPath"), ParseFn("parseBinding", 7, "Binding"),
         ParseFn("parseInherit", 7, "Inherit"), ParseFn("parseBinds", 8, "Binds"), ParseFn("parseFormal", 6, "Formal"),
         FormalsFn("parseFormals", 7, "Formals"), ParseFn("parseLambdaArg", 8, "LambdaArg", ("id", "l_curly"), True)]


class OnNode(Contract):
    """Sema actions, as the parser sees them"""
    cls = ""
    ghost_ok = True

    def result(self, c, T, e):
        bump(c)
        return Contract.result(self, c, T, e)

    def rng(self, c):
        r = c.oldarg(0) if c.old else c.arg(0)
        return r.f["LCur"], r.f["RCur"]

    def requires(self, c):
        l, r = self.rng(c)
        return [("the range is consistent", z3.And(wf(l), wf(r), off(l) < off(r) if self.cls in ParserSpec.NONEMPTY else off(l) <= off(r)), P6)] + [(n, f, P6) for n, f in self.pre(c, off(l), off(r))]

    def pre(self, c, a, b):
        return []

    def ensures(self, c):
        l, r = self.rng(c)
        n = c.ret
        return [("a node of the range", z3.And(n > 0, lo(n) == off(l), hi(n) == off(r), nkind(n) == c.ex.db.enums["nixf::Node::NodeKind"]["NK_" + self.cls]), P6),
                ("diagnostics only grow", c.st.ghost["$gen"] >= c.old.ghost["$gen"], P14)] + [(m, f, P6) for m, f in self.post(c)]

    def post(self, c):
        return []


def within(n, a, b):
    return z3.Implies(n != 0, z3.And(n > 0, a <= lo(n), lo(n) <= hi(n), hi(n) <= b))


def F(cls, fld):
    return z3.Function("F!nixf::%s.%s" % (cls, fld), I, I)


class OnExprAttrs(OnNode):
    q = "nixf::Sema::onExprAttrs"
    cls = "ExprAttrs"

    def pre(self, c, a, b):
        bs, rec = c.arg(1), c.arg(2)
        return [("the bindings lie inside", within(bs, a, b)), ("the keyword lies inside or before", z3.Or(within(rec, a, b), z3.Implies(rec != 0, z3.And(rec > 0, lo(rec) <= hi(rec), hi(rec) <= a))))]

    def post(self, c):
        return [("its bindings are those given", F("ExprAttrs", "Body")(c.ret) == c.oldarg(1)), ("its keyword is the one given", F("ExprAttrs", "Rec")(c.ret) == c.oldarg(2))]

    def modifies(self, c):
        return [ATTRSETS]       # those of nested sets, which it merges


def formals(c, v, a=None, b=None):
    """the formals of a list, as the parser read them"""
    el = lambda k: select(v.data[""], k)
    f = z3.And(el(M) > 0, nkind(el(M)) == c.ex.db.enums["nixf::Node::NodeKind"]["NK_Formal"], 0 <= lo(el(M)), lo(el(M)) < hi(el(M)), hi(el(M)) <= N)
    if a is not None:
        f = z3.And(f, a <= lo(el(M)), hi(el(M)) <= b)
    return [("the formals are objects", c.forall(M, z3.Implies(z3.And(0 <= M, M < v.len), f), el(M)), P6),
            ("the formals are in order", c.forall2(M, M2, z3.Implies(z3.And(0 <= M, M < M2, M2 < v.len), hi(el(M)) <= lo(el(M2))), el(M), el(M2)), P6)]


def reports(c, **kinds):
    """the reports about formals made by this call, for each kind: name -> (old -> new)"""
    out = []
    for n in TRACKED:
        k = "$at:" + n
        if k in c.st.ghost:
            f = kinds.get(n[3:])
            old = c.old.ghost[k]
            out.append(("%s is reported exactly where it has to be" % n[3:] if f else "%s is not reported" % n[3:], c.st.ghost[k] == (f(old) if f else old), P11))
    return out


def freshtrack(c):
    for n in TRACKED:
        if "$at:" + n in c.st.ghost:
            c.st.ghost["$at:" + n] = c.ex.const("at:" + n, ARR)


def nonempty(n, f, old):
    return z3.If(n > 0, f, old)


WHERE = {"FormalMissingComma": lambda a, n: lambda o: SEPS(a, n, o),
         "FormalExtraEllipsis": lambda a, n: lambda o: nonempty(n, EXTRA(a, n, n - 1, o), o),
         "FormalMisplacedEllipsis": lambda a, n: lambda o: nonempty(n, MISPLACED(a, n, n - 1, o), o),
         "EmptyFormal": lambda a, n: lambda o: nonempty(n, EMPTY(a, n - 1, o), o),
         "DuplicatedFormal": lambda a, n: lambda o: DUPS(a, n, o)}


class OnFormals(OnNode):
    q = "nixf::Sema::onFormals"
    cls = "Formals"

    def requires(self, c):
        l, r = self.rng(c)
        return OnNode.requires(self, c) + formals(c, c.arg(1), off(l), off(r))

    def ensures(self, c):
        v = c.oldarg(1)
        a, n, x = v.data[""], v.len, c.ret
        es = OnNode.ensures(self, c) + reports(c, **{k: f(a, n) for k, f in WHERE.items()})
        es.append(("its members are the formals given", z3.And(z3.Function("F!nixf::Formals.Members.[]", I, ARR)(x) == a, z3.Function("F!nixf::Formals.Members.len", I, I)(x) == n), P11))
        return es


class FormalCheck(Contract):
    """the checks of a list of formals only report"""
    ghost_ok = True

    def __init__(self, name, arg, *kinds):
        self.q, self.i, self.kinds = "nixf::Sema::" + name, arg, kinds

    def requires(self, c):
        return formals(c, c.arg(self.i))

    def result(self, c, T, e):
        bump(c)
        freshtrack(c)
        return UNIT

    def ensures(self, c):
        v = c.oldarg(self.i)
        return [("diagnostics only grow", c.st.ghost["$gen"] >= c.old.ghost["$gen"], P14)] + reports(c, **{k: WHERE[k](v.data[""], v.len) for k in self.kinds})


class DedupFormal(FormalCheck):
    def requires(self, c):
        return FormalCheck.requires(self, c) + [("no names yet", c.arg(0).has == NONAMES, P11)]

    def modifies(self, c):
        return [c.args[0]]

    def ensures(self, c):
        v, m, b = c.oldarg(1), c.arg(0), c.oldarg(0)
        a, n = v.data[""], v.len
        if not c.assuming:      # facts about the specification functions (proved by induction)
            c.st.assume(z3.And(*_first(a, n, S)[:-1], *_byat(a, n, S, b.data[""])[:-1]))
        return FormalCheck.ensures(self, c) + [("the names are those of the formals", m.has == has(a, n), P11),
                                               ("every name is known by its first formal", z3.Implies(z3.Select(has(a, n), S), z3.Select(m.data[""], S) == a[FIRST(a, n, S)]), P11)]


class OnLambdaArg(OnNode):
    q = "nixf::Sema::onLambdaArg"
    cls = "LambdaArg"

    def result(self, c, T, e):
        freshtrack(c)
        return OnNode.result(self, c, T, e)

    def ensures(self, c):
        i, f = c.oldarg(1), c.oldarg(2)
        a, n = z3.Function("F!nixf::Formals.Members.[]", I, ARR)(f), z3.Function("F!nixf::Formals.Members.len", I, I)(f)
        dup = z3.And(i != 0, f != 0, z3.Select(has(a, n), idname(i)))
        return OnNode.ensures(self, c) + reports(c, DuplicatedFormalToArg=lambda o: z3.If(dup, count(o, lo(i)), o))

    def pre(self, c, a, b):
        i, f = c.arg(1), c.arg(2)
        return [("the name lies inside", within(i, a, b)), ("the formals lie inside", within(f, a, b)),
                ("name and formals do not overlap", z3.Implies(z3.And(i != 0, f != 0), z3.Or(hi(i) <= lo(f), hi(f) <= lo(i))))]


class Parse(Contract):
    """nixf::parse: a whole file"""
    q = "nixf::parse"

    def setup(self, c):
        c.args[0] = SRC
        c.ex.pv0 = None

    def modifies(self, c):
        return [ATTRSETS]

    def ensures(self, c):
        n = c.ret
        return [("null or an object", n >= 0, P5), ("the tree lies inside the source", z3.Implies(n != 0, z3.And(0 <= lo(n), lo(n) <= hi(n), hi(n) <= N)), P6)]


class ParserParse(PFn):
    q = "nixf::Parser::parse"

    def requires(self, c):
        p = self.pv(c)
        return PFn.requires(self, c) + [("expressions are being parsed", p.top == ps(c.ex, "Expr"), P5)]

    def ensures(self, c):
        p, q, n = self.pv(c), self.pv(c, c.old), c.ret
        return PFn.ensures(self, c) + [("null or an object", n >= 0, P5),
                                       ("the node covers what was read", z3.Implies(n != 0, z3.And(q.pos <= lo(n), lo(n) <= hi(n), hi(n) <= N)), P6 + P5)]


class MergeFragments(Contract):
    q = "(anonymous namespace)::mergeFragments"

    def requires(self, c):
        v = c.arg(0)
        K = c.ex.db.enums["nixf::InterpolablePart::InterpolablePartKind"]
        k = select(v.data[".Kind"], M)
        return [("the fragments are text or interpolations", c.forall(M, z3.Implies(z3.And(0 <= M, M < v.len), z3.Or(k == K["SPK_Escaped"], k == K["SPK_Interpolation"])), k), P5)]

    def ensures(self, c):
        v, w = c.ret, c.oldarg(0)
        K = c.ex.db.enums["nixf::InterpolablePart::InterpolablePartKind"]
        one = z3.And(v.len == 1, select(v.data[".Kind"], iv(0)) == K["SPK_Escaped"])
        return [("the fragments, or their text as one", z3.Or(z3.And(v.len == w.len, *[v.data[k] == w.data[k] for k in (".Kind", ".Interp")]), one), P6)]


SUPPORT = [Peek(), Reset(), ConsumeAsUnknown(), RemoveUnexpected(), Expect(), SPELL]
LEXER = [LexFn("lex", "Expr"), LexFn("lexString", "String"), LexFn("lexIndString", "IndString"), LexFn("lexPath", "Path"), SetCur()]
ENTRY = [ParserParse(), Parse(), MergeFragments()]
SEMA = [OnExprAttrs(), OnFormals(), OnLambdaArg(), FormalCheck("checkFormalSep", 0, "FormalMissingComma"), FormalCheck("checkFormalEllipsis", 0, "FormalExtraEllipsis", "FormalMisplacedEllipsis"),
        FormalCheck("checkFormalEmpty", 0, "EmptyFormal"), DedupFormal("dedupFormal", 1, "DuplicatedFormal")]
SEMAFNS = [c.q for c in SEMA[1:]]
CONTRACTS = SUPPORT + PARSE + LEXER + SEMA + ENTRY
FNS = [c.q for c in SUPPORT + PARSE + ENTRY] + SEMAFNS
SPEC, MODELS = ParserSpec, ParserModels


def contracts():
    return {c.q: c for c in CONTRACTS}


def lemmas():
    return []


SPECFUNS = [SEPS, EXTRA, MISPLACED, EMPTY, HAS, BY, DUPS, FIRST, BYAT]
