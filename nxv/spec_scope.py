"""Contracts for the variable lookup (libnixf/src/Sema/VariableLookup.cpp, PrimOpLookup.cpp).

An environment is an object with its parent (made earlier), its definitions by
name and the syntax it comes from.  LOOK(e, s) is what Nix scoping says a name
stands for in e: the definition in the nearest environment at or above e that
has one.  NW(e) counts the `with` environments at or above e, WI(e, i) is the
i-th of them, the innermost first; WDEF(k) is the definition made for the `with`
whose keyword is k.  SCOPE(e, d): d is a definition in e or above it, or that of
a `with` there.  INV says that what the analysis has recorded agrees with these."""
import z3
from .vals import *
from .exec import Contract, Arbitrary, closed, mapkey, mapcard, mappos, mapfacts
from .smt import SpecFun
from . import spec_parser as P
from . import spec_attrs as A
from .spec_attrs import AttrSpec, Attrs, KIND, set_of, indices, STATIC, SNAME
from .spec_parser import ParserModels, lo, hi, nkind, wf, off, S, M, N, F, P5, P14, idname, fid, recur

P12, P13 = ("P12",), ("P13",)
V, D, W, NODE, J = z3.Ints("V!use D!def W!with N!node J!ix")
S2 = z3.Const("S2!name", SEQ)
ENV, DEF, VLA = "nixf::EnvNode", "nixf::Definition", "nixf::VariableLookupAnalysis"
BYNAME, NAMES = z3.ArraySort(SEQ, I), z3.ArraySort(SEQ, B)
SETI = z3.ArraySort(I, B)
NN = z3.Int("tree.objects")          # the objects of the tree are numbered below
WITH = z3.Int("NK_ExprWith!")
PAR, SYN = (z3.Function("F!%s.%s" % (ENV, f), I, I) for f in ("Parent", "Syntax"))
DH, DD = z3.Function("F!%s.Defs.has" % ENV, I, NAMES), z3.Function("F!%s.Defs.{}" % ENV, I, BYNAME)
DSYN, DSRC = (z3.Function("F!%s.%s" % (DEF, f), I, I) for f in ("Syntax", "Source"))
KW = z3.Function("F!nixf::ExprWith.KwWith", I, I)
VID = z3.Function("F!nixf::ExprVar.ID", I, I)
UP = z3.Function("with.of.keyword", I, I)
WDEF = z3.Function("with.definition", I, I)
NM = z3.Function("env.name.of", I, I, SEQ)
UL, UE = DEF + ".Uses.len", DEF + ".Uses.[]"
NKIDS, KID = z3.Function("nkids", I, I), z3.Function("kidat", I, I, I)
PHAS, PINT = z3.Const("primops.has", NAMES), z3.Const("primops.internal", NAMES)


def vname(v):
    return idname(VID(v))


def iswith(e):
    return z3.And(SYN(e) > 0, nkind(SYN(e)) == WITH)


def up(e):
    return z3.And(0 <= PAR(e), PAR(e) < e)


def inenv(e, d):
    return z3.And(z3.Select(DH(e), NM(e, d)), z3.Select(DD(e), NM(e, d)) == d)


def withdef(e):
    return z3.If(iswith(e), WDEF(KW(SYN(e))), 0)


# (what an environment defines was made before it, see on_alloc; NM chooses a name for it)
INBY = SpecFun("env.inby", [I, SEQ], B)
INBY.body = lambda e, s: [INBY(e, s), z3.Implies(z3.Select(DH(e), s), z3.And(inenv(e, z3.Select(DD(e), s)), z3.Select(DD(e), s) > 0, z3.Select(DD(e), s) < e))]
INBY.assumed = True
SCOPE = SpecFun("scope", [I, I], B)
SCOPE.body = lambda e, d: [SCOPE(e, d) == z3.And(e > 0, z3.Or(inenv(e, d), z3.And(d > 0, withdef(e) == d), z3.And(up(e), SCOPE(PAR(e), d))))]
LOOK = SpecFun("look", [I, SEQ], I)
LOOK.body = lambda e, s: [INBY(e, s), z3.Implies(LOOK(e, s) != 0, SCOPE(e, LOOK(e, s))), LOOK(e, s) >= 0, z3.Implies(e > 0, LOOK(e, s) < e),
                          LOOK(e, s) == z3.If(e <= 0, 0, z3.If(z3.Select(DH(e), s), z3.Select(DD(e), s), z3.If(up(e), LOOK(PAR(e), s), 0)))]
NW = SpecFun("nwith", [I], I)
NW.body = lambda e: [NW(e) >= 0, NW(e) == z3.If(e <= 0, 0, z3.If(iswith(e), 1, 0) + z3.If(up(e), NW(PAR(e)), 0))]
WI = SpecFun("withat", [I, I], I)
WI.body = lambda e, i: [z3.Implies(z3.And(0 <= i, i < NW(e)), z3.And(WI(e, i) > 0, iswith(WI(e, i)), z3.Implies(withdef(WI(e, i)) > 0, SCOPE(e, withdef(WI(e, i)))))),
                        WI(e, i) == z3.If(e <= 0, 0, z3.If(z3.And(iswith(e), i <= 0), e, z3.If(up(e), WI(PAR(e), z3.If(iswith(e), i - 1, i)), 0)))]
# d is the definition of one of the k innermost `with`s, and of which
CHI = SpecFun("with.which", [I, I, I], I)
CHI.body = lambda e, k, d: [CHI(e, k, d) == z3.If(z3.Or(k <= 0, WDEF(KW(SYN(WI(e, k - 1)))) == d), k - 1, CHI(e, k - 1, d))]
CHW = SpecFun("with.chosen", [I, I, I], B)
CHW.body = lambda e, k, d: [z3.Implies(CHW(e, k, d), z3.And(0 <= CHI(e, k, d), CHI(e, k, d) < k, WDEF(KW(SYN(WI(e, CHI(e, k, d))))) == d)),
                            z3.Implies(z3.And(CHW(e, k, d), k <= NW(e), d > 0), SCOPE(e, d)),
                            CHW(e, k, d) == z3.If(k <= 0, False, z3.Or(WDEF(KW(SYN(WI(e, k - 1)))) == d, CHW(e, k - 1, d)))]
# the nodes not visited yet
UNV = SpecFun("unvisited", [SETI, I], I)
UNV.body = lambda h, n: [UNV(h, n) >= 0, UNV(h, n) == z3.If(n <= 0, 0, UNV(h, n - 1) + z3.If(z3.Select(h, n - 1), 0, 1))]
ONE = SpecFun("unvisited.less", [SETI, I, I], B)
ONE.body = lambda h, r, n: [UNV(z3.Store(h, r, True), n) == UNV(h, n) - z3.If(z3.And(0 <= r, r < n, z3.Not(z3.Select(h, r))), 1, 0),
                            ONE(h, r, n) == z3.If(n <= 0, True, ONE(h, r, n - 1))]

# reports of unused definitions: by kind, over the names of an environment in order
UNUSED = SpecFun("unused.reports", [I, NAMES, BYNAME, ARR, I, ARR], ARR)
KINDOF = z3.Function("unused.kind", I, I)      # source of a definition -> kind of report, or -1


def _unused(k, h, d, ul, i, b):
    p = UNUSED(k, h, d, ul, i - 1, b)
    x = z3.Select(d, mapkey(h, i - 1))
    return [UNUSED(k, h, d, ul, i, b) == z3.If(i <= 0, b, z3.If(z3.And(DSYN(x) != 0, z3.Select(ul, x) == 0, KINDOF(DSRC(x)) == k), P.count(p, lo(DSYN(x))), p))]


UNUSED.body = _unused
LIVE = SpecFun("live", [NAMES, BYNAME, ARR, I], B)
LIVE.body = lambda h, d, ul, i: [LIVE(h, d, ul, i) == z3.If(i <= 0, False, z3.Or(LIVE(h, d, ul, i - 1), z3.Select(ul, z3.Select(d, mapkey(h, i - 1))) > 0))]

SOURCES = {"DS_Let": "DK_UnusedDefLet", "DS_LambdaNoArg_Formal": "DK_UnusedDefLambdaNoArg_Formal", "DS_LambdaWithArg_Formal": "DK_UnusedDefLambdaWithArg_Formal", "DS_LambdaWithArg_Arg": "DK_UnusedDefLambdaWithArg_Arg"}
OWN = tuple(SOURCES.values()) + ("DK_ExtraWith", "DK_ExtraRecursive", "DK_UndefinedVariable", "DK_PrimOpNeedsPrefix")
NONE = z3.K(I, iv(0))


def dk(ex, n):
    return ex.db.enums["nixf::Diagnostic::DiagnosticKind"][n]


def src(ex, n):
    return ex.db.enums["nixf::Definition::DefinitionSource"][n]


def nk(ex, n):
    return ex.db.enums["nixf::Node::NodeKind"]["NK_" + n]


def exposed(s):
    return z3.And(z3.Select(PHAS, s), z3.Not(z3.Select(PINT, s)))


def under(s):
    return z3.Concat(z3.Unit(iv(95)), z3.Unit(iv(95)), s)


def primop(ex, s):
    e = ex.db.enums["nixf::PrimopLookupResult"]
    return z3.If(exposed(s), iv(e["Found"]), z3.If(exposed(under(s)), iv(e["PrefixedFound"]), iv(e["NotFound"])))


class An:
    """the analysis as the contracts see it"""
    def __init__(self, ex, this, st):
        v = ex.load(this, st)
        g = lambda f: (v.f[f].has, v.f[f].data)
        self.W, d = g("WithDefs"); self.w = d[""]
        self.T, d = g("ToDef"); self.t = d[""]
        self.E, d = g("Envs"); self.e = d[""]
        self.R, d = g("Results"); self.kind, self.df = d[".Kind"], d[".Def"]
        self.X, d = g("VarWithScopes"); self.xl, self.xe = d[".len"], d[".[]"]
        self.ul, self.ue = st.heap[UL], st.heap[UE]
        self.alloc = st.ghost["$alloc"]
        self.pos = st.ghost["$pos"]
        self.made = st.ghost["$made"]


def resolved(ex, a, v):
    """the result recorded for v is that of scoping in its environment"""
    k = ex.db.enums["nixf::VariableLookupAnalysis::LookupResultKind"]
    e = a.e[v]
    l = LOOK(e, vname(v))
    n = NW(e)
    return z3.If(l != 0, z3.And(a.kind[v] == k["Defined"], a.df[v] == l),
                 z3.If(n > 0, z3.And(a.kind[v] == k["FromWith"], a.df[v] == WDEF(KW(SYN(WI(e, n - 1)))), a.X[v], a.xl[v] == n),
                       z3.And(a.kind[v] == k["Undefined"], a.df[v] == 0)))


def resolves(ex, a, v, d):
    """v resolves to d"""
    e = a.e[v]
    l = LOOK(e, vname(v))
    return z3.And(a.R[v], z3.Or(z3.And(l != 0, l == d), z3.And(l == 0, CHW(e, NW(e), d))))


INV = [
    ("a variable with a result was visited", (V,), lambda ex, a, v: z3.Implies(a.R[v], a.E[v]), lambda a, v: [a.R[v]]),
    ("every variable visited has a result", (V,), lambda ex, a, v: z3.Implies(z3.And(a.E[v], nkind(v) == nk(ex, "ExprVar")), a.R[v]), lambda a, v: [a.E[v]]),
    ("every result is that of scoping in the variable's environment", (V,), lambda ex, a, v: z3.Implies(a.R[v], resolved(ex, a, v)), lambda a, v: [a.R[v]]),
    ("every `with` that may provide a variable is listed, the innermost first", (V, J), lambda ex, a, v, j: z3.Implies(z3.And(a.X[v], 0 <= j, j < a.xl[v]), a.xe[v][j] == SYN(WI(a.e[v], j))), lambda a, v, j: [a.xe[v][j]]),
    ("only a variable with a result has a list of `with`s", (V,), lambda ex, a, v: z3.Implies(a.X[v], a.R[v]), lambda a, v: [a.X[v]]),
    ("a `with` has one definition, at its keyword", (W,), lambda ex, a, w: z3.Implies(a.W[w], z3.And(a.E[w], a.w[w] == WDEF(KW(w)), a.w[w] > 0, a.w[w] < a.alloc, a.made[KW(w)])), lambda a, w: [a.W[w]]),
    ("a definition made for a `with` is recorded", (W,), lambda ex, a, k: z3.Implies(a.made[k], a.W[UP(k)]), lambda a, k: [a.made[k]]),
    ("every `with` around what was visited has its definition", (NODE, J), lambda ex, a, n, j: z3.Implies(z3.And(a.E[n], 0 <= j, j < NW(a.e[n])), a.W[SYN(WI(a.e[n], j))]), lambda a, n, j: [WI(a.e[n], j)]),
    ("a recorded definition is one made for its node", (NODE,), lambda ex, a, n: z3.Implies(a.T[n], z3.And(a.t[n] > 0, a.t[n] < a.alloc, DSYN(a.t[n]) == n)), lambda a, n: [a.T[n]]),
    ("environments exist", (NODE,), lambda ex, a, n: z3.Implies(a.E[n], z3.And(a.e[n] > 0, a.e[n] < a.alloc)), lambda a, n: [a.e[n]]),
    ("every use recorded on a definition is of a variable that resolves to it", (D, J), lambda ex, a, d, j: z3.Implies(z3.And(0 <= j, j < a.ul[d]), resolves(ex, a, a.ue[d][j], d)), lambda a, d, j: [a.ue[d][j]]),
    ("every variable that resolves to a definition is among its uses", (V, D), lambda ex, a, v, d: z3.Implies(resolves(ex, a, v, d), z3.And(0 <= a.pos[v][d], a.pos[v][d] < a.ul[d], a.ue[d][a.pos[v][d]] == v)), lambda a, v, d: [(a.R[v], a.ul[d]), a.pos[v][d]]),
    ("what is not made yet has no uses", (D,), lambda ex, a, d: z3.Implies(d >= a.alloc, a.ul[d] == 0), lambda a, d: [a.ul[d]]),
    ("no definition has a negative number of uses", (D,), lambda ex, a, d: a.ul[d] >= 0, lambda a, d: [a.ul[d]]),
]


def say(c, ks, f, pats):
    """f for all: of arbitrary constants when proving"""
    if not c.assuming:
        return f(*ks)
    n = len(pats(*ks))
    return z3.And(f(*ks), closed(ks, f, [lambda *x, i=i: pats(*x)[i] for i in range(n)]))


def inv(c, a, tags=P12):
    ex = c.ex
    return [(nm, say(c, ks, lambda *x, f=f: f(ex, a, *x), lambda *x, p=p: p(a, *x)), tags) for nm, ks, f, p in INV]


def envok(c, a, e):
    """what holds of every environment variables are looked up in"""
    ex = c.ex
    return [("an environment", z3.And(e > 0, e < a.alloc)),
            ("known builtins are defined", say(c, (S,), lambda s: z3.Implies(exposed(s), LOOK(e, s) != 0), lambda s: [LOOK(e, s)])),
            ("every `with` around has its definition", say(c, (J,), lambda j: z3.Implies(z3.And(0 <= j, j < NW(e)), a.W[SYN(WI(e, j))]), lambda j: [WI(e, j)]))]


def grows(c, a, b):
    """what was recorded stays"""
    g = lambda h, x, h2, y: (lambda n: z3.Implies(h[n], z3.And(h2[n], x[n] == y[n])), lambda n: [h2[n], y[n], h[n]])
    out = []
    for nm, t in (("environments", (a.E, a.e, b.E, b.e)), ("`with` definitions", (a.W, a.w, b.W, b.w))):
        f, p = g(*t)
        out.append(("%s recorded stay" % nm, say(c, (NODE,), f, p), P12))
    out.append(("nodes recorded stay", say(c, (NODE,), lambda n: z3.Implies(a.T[n], b.T[n]), lambda n: [b.T[n]]), P12))
    out.append(("no node is forgotten", UNV(b.E, NN) <= UNV(a.E, NN), ("termination",)))
    return out


def confined(c, a, b, e):
    """only definitions in scope get new uses"""
    return [("only definitions in scope are used", say(c, (D,), lambda d: z3.Implies(z3.And(0 < d, d < a.alloc, z3.Not(SCOPE(e, d))), z3.And(b.ul[d] == a.ul[d], b.ue[d] == a.ue[d])), lambda d: [b.ul[d], b.ue[d]]), P12 + P13)]


class ScopeSpec(AttrSpec):
    heap_classes = {"nixf::Node", ENV, DEF}
    mutable_heap = {DEF + ".Uses"}
    assumptions = AttrSpec.assumptions + [
        "the names of Nix's builtins (PrimOpsInfo, generated from Nix) are none of the constants' names, `builtins` and `__curPos`",
        "the keyword of a `with` is that of no other one (the parser makes it for the one node)"]

    def start(self, ex, st):
        AttrSpec.start(self, ex, st)
        st.assume(z3.And(WITH == nk(ex, "ExprWith"), NN > 0, NN <= st.ghost["$alloc"]))
        for s, k in SOURCES.items():
            st.assume(KINDOF(src(ex, s)) == dk(ex, k))
        for s in ("DS_LambdaArg", "DS_With", "DS_Rec", "DS_Builtin"):
            st.assume(KINDOF(src(ex, s)) == -1)
        st.ghost["$made"] = ex.const("made", SETI)
        st.ghost["$pos"] = ex.const("pos", z3.ArraySort(I, ARR))
        st.ghost["$env"] = iv(0)
        for k in OWN:
            st.ghost["$own:" + k] = NONE

    def treenode(self, ex, T):
        t = T.to if T.k in ("ptr", "ref", "rref") else T.targs[0] if T.k == "rec" and T.q == "std::shared_ptr" else None
        return t is not None and ex.heapclass(t) and t.n not in (ENV, DEF)

    def inv_of(self, ex, st, cls, n, s=None):
        """what holds of every environment"""
        if cls != ENV:
            return []
        f = lambda s: z3.Implies(z3.Select(DH(n), s), z3.And(z3.Select(DD(n), s) > 0, z3.Select(DD(n), s) < n))
        return [("its parent was made before", up(n)), ("that of a `with` defines nothing", z3.Implies(iswith(n), DH(n) == z3.K(SEQ, z3.BoolVal(False)))), ("it holds definitions made before", f(s) if s is not None else closed((S,), f, [lambda x: z3.Select(DD(n), x), lambda x: z3.Select(DH(n), x)]))]

    def heap_read(self, ex, lv, v, st):
        if lv.cls in (ENV, DEF):
            for _, f in self.inv_of(ex, st, lv.cls, lv.ref):
                st.assume(f)
            if lv.t is not None and self.pointer(ex, lv.t):
                self.old(st, v)
                if self.treenode(ex, lv.t):
                    st.assume(v < NN)
            return
        AttrSpec.heap_read(self, ex, lv, v, st)
        if lv.t is not None and self.pointer(ex, lv.t):
            st.assume(v < NN)
            for f in self.siblings(ex, lv.cls, lv.ref):
                st.assume(f)
        if lv.cls == "nixf::ExprAttrs" and lv.path[0] in ("SA", "Rec"):
            st.assume(F("ExprAttrs", "SA.Recursive")(lv.ref) == F("ExprAttrs", "Rec")(lv.ref))
        if lv.cls == "nixf::ExprWith":
            st.assume(UP(KW(lv.ref)) == lv.ref)

    def elem_read(self, ex, v, idx, x, st):
        AttrSpec.elem_read(self, ex, v, idx, x, st)
        if v.et.k == "rec" and v.et.n == "nixf::Attribute":
            self.attribute(ex, st, z3.And(0 <= idx, idx < v.len), v, idx)
        if self.treenode(ex, v.et) and z3.is_expr(x):
            st.assume(z3.And(x >= 0, x < NN))

    def attribute(self, ex, st, has, m, key):
        AttrSpec.attribute(self, ex, st, has, m, key)
        k, v, d = (z3.Select(m.data[f], key) for f in (".Key", ".Value", ".Kind"))
        st.assume(z3.Implies(has, z3.And(k < NN, v < NN, z3.Implies(v > 0, VALKIND(v) == d))))

    def map_read(self, ex, m, key, st):
        AttrSpec.map_read(self, ex, m, key, st)
        if m.et is not None and self.treenode(ex, m.et):
            x = z3.Select(m.data[""], key)
            st.assume(z3.Implies(z3.Select(m.has, key), z3.And(x > 0, x < NN)))

    def on_alloc(self, ex, Ty, v, ref, st):
        AttrSpec.on_alloc(self, ex, Ty, v, ref, st)
        if Ty.n == ENV:
            m = v.f["Defs"]
            ex.ob(st, z3.And(0 <= v.f["Parent"], v.f["Parent"] < ref), "a new environment: its parent was made before", None, P12, assume=False)
            ex.ob(st, z3.Implies(z3.Select(m.has, S), z3.And(z3.Select(m.data[""], S) > 0, z3.Select(m.data[""], S) < ref)), "a new environment: its definitions were made before", None, P12, assume=False)
            ex.ob(st, z3.Implies(z3.And(v.f["Syntax"] > 0, nkind(v.f["Syntax"]) == WITH), z3.Not(z3.Select(m.has, S))), "a new environment: that of a `with` defines nothing", None, P12, assume=False)
            for nm, f in self.inv_of(ex, st, ENV, ref):
                st.assume(f)
            st.ghost["$env"] = ref
        if Ty.n == DEF:
            s = simp(v.f["Source"])
            if not is_const_int(s):
                return
            if ival(s) == src(ex, "DS_With"):
                k = v.f["Syntax"]
                ex.ob(st, z3.Not(z3.Select(st.ghost["$made"], k)), "one definition for a `with`", None, P12)
                st.assume(WDEF(k) == ref)
                st.ghost["$made"] = z3.Store(st.ghost["$made"], k, True)

    # -- reports ------------------------------------------------------------
    def emitted(self, ex, st, kind, r, line):
        AttrSpec.emitted(self, ex, st, kind, r, line)
        for n in OWN:
            g = simp(kind == dk(ex, n))
            if z3.is_false(g):
                continue
            m = st.ghost["$own:" + n]
            m2 = P.count(m, off(r.f["LCur"]))
            st.ghost["$own:" + n] = m2 if z3.is_true(g) else z3.If(g, m2, m)

    def emit(self, ex, e, st):
        out = []
        for loc, s in AttrSpec.emit(self, ex, e, st):
            r = self.last
            v = s.store[loc.root]
            s.store[loc.root] = Rec(v.cls, dict(v.f, Range=r))
            out.append((loc, s))
        return out

    def check_range(self, ex, st, r, line, what):
        self.last = r
        return AttrSpec.check_range(self, ex, st, r, line, what)

    # -- calls --------------------------------------------------------------
    def call_hook(self, ex, e, st):
        n = e.get("name")
        o = e.get("obj")
        if n == "range" and o is not None:
            t = o["t"].to if o["t"].k in ("ptr", "ref") else o["t"]
            if t is not None and t.k == "rec" and t.q in ("nixf::Diagnostic", "nixf::PartialDiagnostic"):
                return [(ex.newloc(s, ex.load(l, s).f["Range"]), s) for l, s in ex.obj_lv(o, e.get("arrow"), st, e.get("line"))]
        if n == "children" and e.get("virtual") and not e.get("nonvirt"):
            out = []
            for o, s in ex.obj_lv(e["obj"], e.get("arrow"), st, e.get("line")):
                s.assume(NKIDS(o.ref) >= 0)
                i = z3.Int("i!kid")
                out.append((Vec(NKIDS(o.ref), {"": z3.Lambda([i], KID(o.ref, i))}, e["t"].targs[0], e["t"].q), s))
            return out
        return AttrSpec.call_hook(self, ex, e, st)

    def loop_candidates(self, ex, s, entry, mod, roots):
        out = AttrSpec.loop_candidates(self, ex, s, entry, mod, roots)
        c = ex.topctx
        if c is not None and isinstance(c.contract, SFn) and c.contract.analysis and isinstance(c.this, LV):
            out += c.contract.kept(c, ex, entry, mod)
        return out


class SFn(Contract):
    ghost_ok = True
    analysis = True
    scc = None
    level = 0
    watch = ()

    # -- set-up
    def setup(self, c):
        ex, st = c.ex, c.st
        sp = ex.spec
        c.entry = st.fork()
        st.ghost["$calls"] = iv(0)
        for k in ("$arg", "$what", "$emit"):
            st.ghost[k] = iv(0)
        f = [x for x in ex.db.byq[self.q] if len(x["params"]) == len(c.args)]
        for i, a in enumerate(c.args):
            t = f[0]["params"][i]["t"]
            v = ex.load(a, st) if isinstance(a, LV) else a
            if z3.is_expr(v) and v.sort() == I and (sp.pointer(ex, t) or isinstance(a, LV)):
                st.assume(z3.And(0 <= v, v < st.ghost["$alloc"]))
            if isinstance(a, HLV) and not a.path:
                st.assume(z3.And(0 < a.ref, a.ref < NN))
                sp.heap_read(ex, HLV(a.ref, a.cls, ("$",), None), None, st)
                sp.typed(ex, RT(a.cls), a.ref, st)
        if self.analysis:
            a = self.an(c)
            for nm, ks, g, p in INV:
                if nm not in self.broken:
                    st.assume(g(ex, a, *ks))
            e = self.env(c)
            if e is not None:
                for nm, g in envok(c, a, e):
                    st.assume(g)

    broken = ()        # what does not hold while the function runs

    def an(self, c, st=None):
        return An(c.ex, c.this, st or c.st)

    def env(self, c):
        return None

    def node(self, c):
        return c.args[0].ref if isinstance(c.args[0], HLV) else None

    # -- contract
    def requires(self, c):
        out = []
        if self.analysis:
            a = self.an(c)
            out += [x for x in inv(c, a) if x[0] not in self.broken]
            e = self.env(c)
            if e is not None:
                out += envok(c, a, e)
        return out + self.pre(c)

    def pre(self, c):
        return []

    def modifies(self, c):
        return [c.path(c.this, f) for f in ("WithDefs", "ToDef", "Envs", "Results", "VarWithScopes")] + [DEF + ".Uses"]

    def measure(self, c):
        if self.scc is None or not self.analysis:
            return None
        return [5 * UNV(self.an(c).E, NN) + self.lev(c)]

    def lev(self, c):
        return self.level

    def result(self, c, T, e):
        st = c.st
        P.bump(c)
        if self.analysis:
            n = c.ex.const("alloc", I)
            st.assume(n >= c.old.ghost["$alloc"])
            st.ghost["$alloc"] = n
            st.ghost["$pos"] = c.ex.const("pos", z3.ArraySort(I, ARR))
            st.ghost["$made"] = c.ex.const("made", SETI)
        r = Contract.result(self, c, T, e)
        top = c.ex.topctx
        if top is not None and isinstance(top.contract, SFn):
            top.contract.calls(top, c)
        return r

    # which calls the function makes: a child is handed on with the environment of its place
    def calls(self, top, c):
        f = self.call(top, c, c.contract)
        if f is not None:
            nm, g = f
            top.ex.ob(c.st, g, nm, None, P12 + P13)

    def call(self, top, c, callee):
        return ("nothing else is visited", z3.BoolVal(False)) if isinstance(callee, Walk) else None

    def fresh_env(self, st, r, old):
        """the environment the function works in"""
        st.ghost["$env"] = z3.If(r >= old, r, st.ghost["$env"])

    def ensures(self, c):
        out = [("diagnostics only grow", c.st.ghost["$gen"] >= c.old.ghost["$gen"], P14), ("objects only grow" if self.analysis else "no object is made", c.st.ghost["$alloc"] >= c.old.ghost["$alloc"] if self.analysis else c.st.ghost["$alloc"] == c.old.ghost["$alloc"], P5)]
        if self.analysis:
            a, b = self.an(c, c.old), self.an(c)
            out += inv(c, b) + grows(c, a, b)
            e = self.env(c)
            if e is not None:
                out += confined(c, a, b, e)
        return out + self.post(c)

    def post(self, c):
        return []

    def own(self, c, **kinds):
        """the reports this function makes itself: those given, none of another kind"""
        if c.assuming:
            return []
        return [("%s is reported exactly when it should be" % k[3:], c.st.ghost["$own:" + k] == kinds.get(k, NONE), P13) for k in OWN]

    # -- loops
    def kept(self, c, ex, entry, mod):
        """what the calls made in a loop keep"""
        out = []
        if not any(k[0] == c.this.root or k[0] == "heap" for k in mod):
            return []
        a0 = self.an(c, entry)
        now = lambda st: self.an(c, st)
        for nm, ks, f, p in INV:
            if nm in self.broken:
                continue
            out.append((nm, Arbitrary(ks, lambda st, *x, f=f: f(ex, now(st), *x), *[lambda st, *x, p=p, i=i: p(now(st), *x)[i] for i in range(len(p(a0, *ks)))])))
        for w, h, v in (("environments", "E", "e"), ("`with` definitions", "W", "w")):
            g = lambda x, f: getattr(x, f)
            out.append(("%s recorded stay" % w, Arbitrary((NODE,), lambda st, n, h=h, v=v: z3.Implies(g(a0, h)[n], z3.And(g(now(st), h)[n], g(now(st), v)[n] == g(a0, v)[n])),
                                                          lambda st, n, h=h: g(now(st), h)[n], lambda st, n, v=v: g(now(st), v)[n], lambda st, n, h=h: g(a0, h)[n])))
        out.append(("nodes recorded stay", Arbitrary((NODE,), lambda st, n: z3.Implies(a0.T[n], now(st).T[n]), lambda st, n: now(st).T[n])))
        out.append(("no node is forgotten", lambda st: UNV(now(st).E, NN) <= UNV(a0.E, NN)))
        for k in sorted(k for k in entry.ghost if k.startswith("$own:")):
            out.append(("own reports of %s" % k, lambda st, k=k: st.ghost[k] == entry.ghost[k]))
        e = self.env(c)
        for w, x in (("given", e), ("made", entry.ghost["$env"])):
            if x is not None:
                out.append(("only definitions in the scope %s are used" % w, Arbitrary((D,), lambda st, d, x=x: z3.Implies(z3.And(0 < d, d < a0.alloc, z3.Not(SCOPE(x, d))), z3.And(now(st).ul[d] == a0.ul[d], now(st).ue[d] == a0.ue[d])),
                                                                                     lambda st, d: now(st).ul[d], lambda st, d: now(st).ue[d])))
        return out


def RT(n):
    from .driver import RecType
    return RecType(n)


def literals(e, out):
    """the texts written in an initializer, in order"""
    if isinstance(e, dict):
        if e.get("k") == "str":
            out.append(tuple(e["v"]))
        for v in e.values():
            literals(v, out)
    elif isinstance(e, list):
        for v in e:
            literals(v, out)
    return out


def text(cs):
    return z3.Concat(*[z3.Unit(iv(c)) for c in cs]) if len(cs) > 1 else z3.Unit(iv(cs[0])) if cs else z3.Empty(SEQ)


def constants(ex):
    g = ex.db.tables["(anonymous namespace)::Constants"]
    h = z3.K(SEQ, z3.BoolVal(False))
    for cs in literals(g["init"], []):
        h = z3.Store(h, text(cs), True)
    return g["t"], h


class ScopeModels(ParserModels):
    globals = dict(ParserModels.globals)


def _primops(ex, st):
    m = ex.build(ex.global_type, lambda p, s: z3.Const("primops" + p, s), "", st)
    return Map(PHAS, dict(m.data, **{".Internal": PINT}), m.kt, m.et, m.q)


def _constants(ex, st):
    t, h = constants(ex)
    return Map(h, {}, t.targs[0], None, t.q)


ScopeModels.globals["nixf::PrimOpsInfo"] = _primops
ScopeModels.globals["(anonymous namespace)::Constants"] = _constants


class LookupPrimOp(Contract):
    q = "nixf::lookupGlobalPrimOpInfo"
    ghost_ok = True

    def ensures(self, c):
        s = c.ex.as_seq(c.ex.load(c.args[0], c.st))
        return [("an exposed builtin is found by its name, or without its `__`", c.ret == primop(c.ex, s), P13 + P12)]


def locals_(ex, entry, mod, roots):
    """the numbers and the lists a loop changes"""
    leaves = ex.state_leaves(entry, roots)
    ks = sorted((k for k in mod if k[0] not in ("heap", "ghost") and k in leaves and z3.is_expr(leaves[k])), key=str)
    get = lambda k: (lambda st: ex.leaf_get(st, k))
    ints = [(ex.leafname(k), get(k)) for k in ks if leaves[k].sort() == I]
    by = {ex.leafname(k): k for k in ks}
    vecs = []
    for n, k in by.items():
        if n.endswith(".len"):
            for m, k2 in by.items():
                if m.startswith(n[:-4] + ".[]") and leaves[k2].sort() == ARR:
                    vecs.append((n[:-4], get(k), get(k2)))
    return ints, vecs


class LookupVar(SFn):
    q = VLA + "::lookupVar"
    broken = ("every variable visited has a result",)

    def env(self, c):
        return c.arg(1, c.old or c.st)

    def pre(self, c):
        a, v = self.an(c), self.node(c)
        return [("the variable was just visited in this environment", z3.And(a.E[v], a.e[v] == self.env(c), z3.Not(a.R[v]), v > 0, v < NN), P12),
                ("every other variable visited has a result", say(c, (V,), lambda x: z3.Implies(z3.And(x != v, a.E[x], nkind(x) == nk(c.ex, "ExprVar")), a.R[x]), lambda x: [a.E[x]]), P12)]

    def setup(self, c):
        SFn.setup(self, c)
        a, v = self.an(c), self.node(c)
        c.st.assume(z3.Implies(z3.And(V != v, a.E[V], nkind(V) == nk(c.ex, "ExprVar")), a.R[V]))

    def modifies(self, c):
        return [c.path(c.this, f) for f in ("Results", "VarWithScopes")] + [DEF + ".Uses"]

    def candidates(self, c, ex, s, entry, mod, roots):
        v, e = self.node(c), self.env(c)
        nm = vname(v)
        ints, vecs = locals_(ex, entry, mod, roots)
        a0 = self.an(c, entry)
        n = NW(e)
        out = []
        for w, x in ints:
            out.append(("%s: the name stands for the same there" % w, lambda st, x=x: LOOK(e, nm) == LOOK(x(st), nm)))
            out.append(("%s is the definition of the last `with`" % w, lambda st, x=x: z3.Or(self.idx(ex, ints, st) == 0, x(st) == WDEF(KW(SYN(WI(e, self.idx(ex, ints, st) - 1)))))))
            for lw, ln, xs in vecs:
                out.append(("%s, %s: `with`s left" % (w, lw), lambda st, x=x, ln=ln: ln(st) + NW(x(st)) == n))
                out.append(("%s, %s: which `with`s are left" % (w, lw), Arbitrary((J,), lambda st, j, x=x, ln=ln: z3.Implies(j >= ln(st), WI(e, j) == WI(x(st), j - ln(st))), lambda st, j: WI(e, j))))
        for lw, ln, xs in vecs:
            out.append(("%s: the `with`s so far" % lw, Arbitrary((J,), lambda st, j, ln=ln, xs=xs: z3.Implies(z3.And(0 <= j, j < ln(st)), z3.And(xs(st)[j] == WI(e, j), xs(st)[j] > 0, iswith(xs(st)[j]))), lambda st, j, xs=xs: xs(st)[j])))
            out.append(("%s: where the `with`s so far come from" % lw, Arbitrary((J,), lambda st, j, ln=ln, xs=xs: z3.Implies(z3.And(0 <= j, j < ln(st)), xs(st)[j] == SYN(WI(e, j))), lambda st, j, xs=xs: xs(st)[j])))
        now = lambda st: self.an(c, st)
        if not any(k[0] == "heap" for k in mod):
            return out
        out.append(("uses only grow", Arbitrary((D,), lambda st, d: now(st).ul[d] >= a0.ul[d], lambda st, d: now(st).ul[d])))
        out.append(("earlier uses stay", Arbitrary((D, J), lambda st, d, j: z3.Implies(z3.And(0 <= j, j < a0.ul[d]), now(st).ue[d][j] == a0.ue[d][j]), lambda st, d, j: now(st).ue[d][j])))
        out.append(("new uses are of this variable", Arbitrary((D, J), lambda st, d, j: z3.Implies(z3.And(a0.ul[d] <= j, j < now(st).ul[d]), now(st).ue[d][j] == v), lambda st, d, j: now(st).ue[d][j])))
        for w, x in ints:
            out.append(("%s: the `with`s so far are used" % w, Arbitrary((D,), lambda st, d, x=x: z3.Implies(CHW(e, x(st), d), now(st).ul[d] > a0.ul[d]), lambda st, d: now(st).ul[d], lambda st, d, x=x: CHW(e, x(st), d))))
            out.append(("%s: only the `with`s so far are used" % w, Arbitrary((D,), lambda st, d, x=x: z3.Implies(z3.Not(CHW(e, x(st), d)), z3.And(now(st).ul[d] == a0.ul[d], now(st).ue[d] == a0.ue[d])), lambda st, d: now(st).ul[d], lambda st, d: now(st).ue[d])))
        return out

    def idx(self, ex, ints, st):
        for w, x in ints:
            if "$idx" in w:
                return x(st)
        raise KeyError("index")

    def post(self, c):
        ex, v, e = c.ex, self.node(c), self.env(c)
        s = vname(v)
        l = LOOK(e, s)
        pr = ex.db.enums["nixf::PrimopLookupResult"]
        und = z3.And(l == 0, NW(e) == 0)
        at = lambda g: z3.If(g, z3.Store(NONE, lo(v), 1), NONE)
        return [("the variable has a result", self.an(c).R[v], P12)] + self.own(c, DK_UndefinedVariable=at(z3.And(und, primop(ex, s) == pr["NotFound"])), DK_PrimOpNeedsPrefix=at(z3.And(und, primop(ex, s) == pr["PrefixedFound"])))

    def ensures(self, c):
        if not c.assuming:
            # the use just added is the last but for those of the same variable
            v = self.node(c)
            a = self.an(c, c.old)
            p = a.pos
            x, d = z3.Ints("x!pos d!pos")
            c.st.ghost["$pos"] = z3.Lambda([x], z3.If(x == v, a.ul, p[x]))
        return SFn.ensures(self, c)


class Walk(SFn):
    """part of the walk over the tree"""
    scc = "dfs"

    def env(self, c):
        return c.arg(1, c.old or c.st)

    def at(self, c, cls, f):
        return z3.Function("F!nixf::%s.%s" % (cls, f), I, I)(self.node(c))

    def covered(self, c, n, st=None):
        """n was visited"""
        return z3.Implies(n != 0, self.an(c, st).E[n])

    def newenv(self, c, kind, withs=False):
        """the environment made by this function"""
        e = c.st.ghost["$env"]
        return z3.And(e >= c.old.ghost["$alloc"], PAR(e) == self.env(c), SYN(e) == self.node(c))


def childof(callee, c):
    return c.args[0].ref if isinstance(c.args[0], HLV) else c.args[0]


class DfsNode(Walk):
    q = VLA + "::dfs"
    level = 1

    def setup(self, c):
        SFn.setup(self, c)
        c.st.ghost["$disp"] = iv(0)
        c.st.ghost["$sel"] = iv(0)
        c.st.assume(ONE(self.an(c).E, self.node(c), NN))

    def pre(self, c):
        n = self.node(c)
        return [("a node of the tree", z3.And(n > 0, n < NN), P5)]

    PLAIN = ("ExprVar", "ExprLambda", "ExprAttrs", "ExprLet", "ExprLegacyLet", "ExprWith")

    def call(self, top, c, callee):
        ex = c.ex
        n, k = self.node(top), nkind(self.node(top))
        if isinstance(callee, CheckBuiltins):
            c.st.ghost["$sel"] = simp(c.st.ghost["$sel"] + 1)
            return "only a selection is checked, the one visited", z3.And(childof(callee, c) == n, k == nk(ex, "ExprSelect"))
        if not isinstance(callee, (Walk, LookupVar)):
            return None
        c.st.ghost["$disp"] = simp(c.st.ghost["$disp"] + 1)
        own = callee.which(c) if isinstance(callee, Dfs) else "ExprVar" if isinstance(callee, LookupVar) else None
        if own is None and not isinstance(callee, Trivial) or own == "":
            return "nothing else is visited", z3.BoolVal(False)
        g = k == nk(ex, own) if own else z3.And(*[k != nk(ex, x) for x in self.PLAIN])
        return "the node is handed on as what it is, in its environment", z3.And(childof(callee, c) == n, callee.env(c) == self.env(top), g)

    def post(self, c):
        a, b, n = self.an(c, c.old), self.an(c), self.node(c)
        out = [("the node is visited, in the environment given", z3.And(b.E[n], z3.Or(a.E[n], b.e[n] == self.env(c))), P12)]
        if not c.assuming:
            out.append(("a node is handled once", c.st.ghost["$disp"] == z3.If(a.E[n], 0, 1), P12 + P13))
            out.append(("a selection is checked once", c.st.ghost["$sel"] == z3.If(z3.And(z3.Not(a.E[n]), nkind(n) == nk(c.ex, "ExprSelect")), 1, 0), P13))
        return out + self.own(c)


class Part(Walk):
    """one kind of node"""
    q = VLA + "::dfs"
    level = 4
    cls = ""

    def setup(self, c):
        SFn.setup(self, c)
        self.begin(c)

    def begin(self, c):
        c.st.ghost["$emit"] = iv(0)
        c.st.ghost["$emitul"] = c.st.heap[UL]
        c.st.ghost["$calls"] = iv(0)

    def pre(self, c):
        n = self.node(c)
        return [("a node of the tree", z3.And(n > 0, n < NN), P5)]

    def call(self, top, c, callee):
        st = c.st
        if isinstance(callee, Emit):
            st.ghost["$emit"] = simp(st.ghost["$emit"] + 1)
            st.ghost["$emitul"] = st.heap[UL]
            return "unused names of its own environment are reported", callee.env0(c) == st.ghost["$env"]
        if isinstance(callee, Walk):
            return "a child is visited in the environment of its place", self.place(top, c, callee)

    def place(self, top, c, callee):
        return z3.BoolVal(False)

    def emitted_once(self, c, g=True):
        if c.assuming:
            return []
        return [("unused names are reported once, when all uses are known", z3.And(c.st.ghost["$emit"] == z3.If(g, 1, 0), z3.Implies(g, c.st.ghost["$emitul"] == c.st.heap[UL])), P13)]


def body_env(c, e, f, src, has, key):
    """the definitions of e are those of the names of has, each made at its key"""
    return [("its environment defines exactly its names", each(c, lambda s: z3.Select(DH(e), s) == has(s), lambda s: z3.Select(DH(e), s)), P12),
            ("each is defined where it is named", each(c, lambda s: z3.Implies(has(s), z3.And(DSYN(z3.Select(DD(e), s)) == key(s), DSRC(z3.Select(DD(e), s)) == src(s))), lambda s: z3.Select(DD(e), s)), P12)]


def each(c, f, *pats):
    if not c.assuming:
        return f(S)
    return closed((S,), f, list(pats))


class DfsLambda(Part):
    cls = "ExprLambda"

    def look(self, c):
        n = self.node(c)
        arg = F("ExprLambda", "Arg")(n)
        aid, fs = F("LambdaArg", "ID")(arg), F("LambdaArg", "F")(arg)
        return arg, aid, fs, z3.Function("F!nixf::Formals.Dedup.has", I, NAMES)(fs), z3.Function("F!nixf::Formals.Dedup.{}", I, BYNAME)(fs)

    def names(self, c):
        ex = c.ex
        arg, aid, fs, dh, dd = self.look(c)
        formal = lambda s: z3.And(fs != 0, z3.Select(dh, s))
        has = lambda s: z3.Or(formal(s), z3.And(aid != 0, idname(aid) == s))
        key = lambda s: z3.If(formal(s), fid(z3.Select(dd, s)), aid)
        sr = lambda s: z3.If(formal(s), z3.If(aid != 0, src(ex, "DS_LambdaWithArg_Formal"), src(ex, "DS_LambdaNoArg_Formal")), z3.If(fs != 0, src(ex, "DS_LambdaWithArg_Arg"), src(ex, "DS_LambdaArg")))
        return has, key, sr

    def cases(self, c):
        arg, aid, fs, dh, dd = self.look(c)
        n = idname(aid)
        return [aid == 0, z3.And(fs != 0, z3.Select(dh, n)), fs == 0, z3.And(exposed(n), z3.Select(constants(c.ex)[1], n)), exposed(n), z3.Select(constants(c.ex)[1], n)]

    def place(self, top, c, callee):
        return z3.And(callee.env(c) == c.st.ghost["$env"], c.st.ghost["$env"] >= top.entry.ghost["$alloc"])

    def maps(self, c):
        arg, aid, fs, dh, dd = self.look(c)
        return [(dh, lambda s: True)]

    def post(self, c):
        if c.assuming:
            return []
        arg, aid, fs, dh, dd = self.look(c)
        body = self.at(c, "ExprLambda", "Body")
        e = c.st.ghost["$env"]
        has, key, sr = self.names(c)
        g = body != 0
        out = [(nm, z3.Implies(g, f), t) for nm, f, t in body_env(c, e, None, sr, has, key)]
        mem, ln = z3.Function("F!nixf::Formals.Members.[]", I, ARR)(fs), z3.Function("F!nixf::Formals.Members.len", I, I)(fs)
        out += [("its environment is inside that given", z3.Implies(g, self.newenv(c, None)), P12),
                ("its body is visited", self.covered(c, body), P12),
                ("every default is visited", z3.Implies(z3.And(g, fs != 0, 0 <= J, J < ln), self.covered(c, F("Formal", "Default")(mem[J]))), P12)]
        return out + self.emitted_once(c, g) + self.own(c)

    def candidates(self, c, ex, s, entry, mod, roots):
        arg, aid, fs, dh, dd = self.look(c)
        mem = z3.Function("F!nixf::Formals.Members.[]", I, ARR)(fs)
        return scope_candidates(self, c, ex, entry, mod, roots) + [
            ("%s: defaults so far are visited" % w, Arbitrary((J,), lambda st, j, x=x: z3.Implies(z3.And(0 <= j, j < x(st)), self.covered(c, F("Formal", "Default")(mem[j]), st)), lambda st, j: mem[j]))
            for w, x in locals_(ex, entry, mod, roots)[0]]


def defmaps(ex, st, mod):
    """the maps from names to definitions a loop changes"""
    out = []
    ks = sorted((k for k in mod if k[0] not in ("heap", "ghost") and str(k[1]).endswith(".has")), key=str)
    for k in ks:
        d = (k[0], str(k[1])[:-4] + ".{}")
        out.append((ex.leafname(k), lambda st, k=k: ex.leaf_get(st, k), lambda st, d=d: ex.leaf_get(st, d)))
    return out


def scope_candidates(self, c, ex, entry, mod, roots):
    out = []
    ints, vecs = locals_(ex, entry, mod, roots)
    a0 = c.entry.ghost["$alloc"]
    has, key, sr = self.names(c) if hasattr(self, "names") else (None, None, None)
    for w, h, d in defmaps(ex, entry, mod):
        try:
            h(entry), d(entry)
        except KeyError:
            continue
        sel = lambda a, s: z3.Select(a, s)
        out.append(("%s: definitions are new" % w, Arbitrary((S,), lambda st, s, h=h, d=d: z3.Implies(sel(h(st), s), z3.And(sel(d(st), s) >= a0, sel(d(st), s) < st.ghost["$alloc"])), lambda st, s, d=d: sel(d(st), s), lambda st, s, h=h: sel(h(st), s))))
        if has is not None:
            out.append(("%s: definitions so far" % w, Arbitrary((S,), lambda st, s, h=h, d=d: z3.Implies(sel(h(st), s), z3.And(DSYN(sel(d(st), s)) == key(s), DSRC(sel(d(st), s)) == sr(s))), lambda st, s, d=d: sel(d(st), s), lambda st, s, h=h: sel(h(st), s))))
        for w2, x in ints:
            for i, (m, f) in enumerate(self.maps(c)):
                out.append(("%s, %s: names so far (%d)" % (w, w2, i), Arbitrary((S,), lambda st, s, h=h, x=x, m=m, f=f: sel(h(st), s) == z3.Or(z3.And(sel(m, s), f(s), mappos(m, s) < x(st)), sel(h(entry), s)), lambda st, s, h=h: sel(h(st), s), lambda st, s, m=m: mappos(m, s))))
    return out


class DfsWith(Part):
    cls = "ExprWith"

    def pre(self, c):
        a, n = self.an(c), self.node(c)
        return Part.pre(self, c) + [("the `with` has no definition yet", z3.And(z3.Not(a.W[n]), a.E[n]), P12)]

    def place(self, top, c, callee):
        n, x, e = self.node(top), childof(callee, c), callee.env(c)
        return z3.Or(z3.And(x == self.at(top, "ExprWith", "With"), e == self.env(top)),
                     z3.And(x == self.at(top, "ExprWith", "E"), e == c.st.ghost["$env"], e >= top.entry.ghost["$alloc"]))

    def post(self, c):
        n, a = self.node(c), self.an(c)
        w, x, k = self.at(c, "ExprWith", "With"), self.at(c, "ExprWith", "E"), KW(n)
        out = [("its definition is recorded", z3.And(a.W[n], a.T[k]), P12)]
        if c.assuming:
            return out
        e = c.st.ghost["$env"]
        return out + [("its environment is inside that given and defines nothing", z3.And(self.newenv(c, None), z3.Not(z3.Select(DH(e), S))), P12),
                      ("its definition is made at its keyword", z3.And(DSYN(a.w[n]) == k, DSRC(a.w[n]) == src(c.ex, "DS_With")), P12),
                      ("what it brings in is visited", self.covered(c, w), P12), ("its body is visited", self.covered(c, x), P12)] + \
            self.own(c, DK_ExtraWith=z3.If(a.ul[a.w[n]] == 0, z3.Store(NONE, lo(k), 1), NONE))


class DfsLet(Part):
    cls = "ExprLet"

    def place(self, top, c, callee):
        n, x, e = self.node(top), childof(callee, c), callee.env(c)
        if isinstance(callee, DfsAttrs):
            at = self.at(top, "ExprLet", "Attrs")
            o = c.args[0]
            return z3.And(at != 0, z3.BoolVal(isinstance(o, HLV) and o.path == ("SA",)), o.ref == at, e == self.env(top), callee.ret_syntax(c) == n, callee.ret_source(c) == src(c.ex, "DS_Let"))
        return z3.And(x == self.at(top, "ExprLet", "E"), e == c.st.ghost["$env"], e >= top.entry.ghost["$alloc"])

    def post(self, c):
        if c.assuming:
            return []
        n = self.node(c)
        at, x = self.at(c, "ExprLet", "Attrs"), self.at(c, "ExprLet", "E")
        e = c.st.ghost["$env"]
        sa = Attrs(c.ex.load(set_of(c.ex, at), c.old))
        L = src(c.ex, "DS_Let")
        return body_env(c, e, None, lambda s: L, lambda s: z3.And(at != 0, z3.Select(sa.has, s)), lambda s: z3.Select(sa.key, s)) + [
            ("its environment is inside that given", self.newenv(c, None), P12), ("its body is visited", self.covered(c, x), P12)] + covers(self, c, sa, at != 0) + self.emitted_once(c) + self.own(c)


def covers(self, c, sa, g=True, st=None):
    """all of the attributes are visited"""
    a = self.an(c, st)
    val = lambda s: z3.Implies(z3.And(g, z3.Select(sa.has, s), z3.Select(sa.val, s) != 0), a.E[z3.Select(sa.val, s)])
    dyn = lambda j: z3.Implies(z3.And(g, 0 <= j, j < sa.n, sa.d["Value"][j] != 0), z3.And(a.E[sa.d["Key"][j]], a.E[sa.d["Value"][j]]))
    return [("every value is visited", each(c, val, lambda s: z3.Select(sa.val, s)), P12),
            ("every dynamic name is visited, with its value", dyn(J) if not c.assuming else closed((J,), dyn, [lambda j: sa.d["Value"][j]]), P12)]


class DfsLegacy(Part):
    cls = "ExprLegacyLet"
    level = 5

    def place(self, top, c, callee):
        return z3.And(childof(callee, c) == self.at(top, "ExprLegacyLet", "Attrs"), callee.env(c) == self.env(top)) if isinstance(callee, Dfs) else z3.BoolVal(False)

    def post(self, c):
        at = self.at(c, "ExprLegacyLet", "Attrs")
        return [] if c.assuming else covers(self, c, Attrs(c.ex.load(set_of(c.ex, at), c.old)), at != 0) + self.own(c)


class DfsSet(Part):
    cls = "ExprAttrs"

    def place(self, top, c, callee):
        o = c.args[0]
        return z3.And(z3.BoolVal(isinstance(callee, DfsAttrs) and isinstance(o, HLV) and o.path == ("SA",)), o.ref == self.node(top), callee.env(c) == self.env(top),
                      callee.ret_syntax(c) == self.node(top), callee.ret_source(c) == src(c.ex, "DS_Rec")) if isinstance(callee, DfsAttrs) else z3.BoolVal(False)

    def post(self, c):
        n = self.node(c)
        sa = Attrs(c.ex.load(set_of(c.ex, n), c.old))
        out = covers(self, c, sa)
        if c.assuming:
            return out
        e, b = c.st.ghost["$env"], self.an(c)
        rec = sa.rec != 0
        live = LIVE(DH(e), DD(e), b.ul, mapcard(DH(e)))
        R = src(c.ex, "DS_Rec")
        return out + [(nm, z3.Implies(rec, f), t) for nm, f, t in body_env(c, e, None, lambda s: R, lambda s: z3.Select(sa.has, s), lambda s: z3.Select(sa.key, s))] + [
            ("a recursive set has an environment inside that given", z3.Implies(rec, self.newenv(c, None)), P12)] + \
            self.own(c, DK_ExtraRecursive=z3.If(z3.And(rec, z3.Not(live)), z3.Store(NONE, lo(self.at(c, "ExprAttrs", "Rec")), 1), NONE))


class Dfs(Walk):
    q = VLA + "::dfs"
    SUBS = {s.cls: s for s in (DfsLambda(), DfsWith(), DfsLet(), DfsLegacy(), DfsSet())}
    NODE = DfsNode()

    def which(self, c):
        a = c.args[0]
        n = a.cls.split("::")[-1] if isinstance(a, HLV) else ""
        return n if n in self.SUBS else ""

    def sub(self, c):
        return self.SUBS.get(self.which(c), self.NODE)

    def overload(self, name, f):
        t = f["params"][0]["t"]
        return (t.to or t).n == "nixf::" + name

    def lev(self, c):
        return self.sub(c).level

    def setup(self, c): return self.sub(c).setup(c)
    def cases(self, c): return self.sub(c).cases(c) if hasattr(self.sub(c), "cases") else []
    def pre(self, c): return self.sub(c).pre(c)
    def post(self, c): return self.sub(c).post(c)
    def call(self, top, c, callee): return self.sub(top).call(top, c, callee)
    def candidates(self, c, *a):
        f = getattr(self.sub(c), "candidates", None)
        return f(c, *a) if f else []


class Trivial(Walk):
    q = VLA + "::trivialDispatch"
    level = 2

    def pre(self, c):
        n = self.node(c)
        return [("a node of the tree", z3.And(n > 0, n < NN), P5)]

    def call(self, top, c, callee):
        return ("children are visited in the environment given", callee.env(c) == self.env(top)) if isinstance(callee, Dfs) else Walk.call(self, top, c, callee)

    def kids(self, c, x=None, st=None):
        n = self.node(c)
        return lambda j: z3.Implies(z3.And(0 <= j, j < (NKIDS(n) if x is None else x)), self.covered(c, KID(n, j), st))

    def post(self, c):
        k = self.kids(c)
        return [("every child is visited", k(J) if not c.assuming else closed((J,), k, [lambda j: KID(self.node(c), j)]), P12)] + self.own(c)

    def candidates(self, c, ex, s, entry, mod, roots):
        n = self.node(c)
        return [("%s: children so far are visited" % w, Arbitrary((J,), lambda st, j, x=x: self.kids(c, x(st), st)(j), lambda st, j: KID(n, j))) for w, x in locals_(ex, entry, mod, roots)[0]]


VALKIND = z3.Function("attribute.kind.of.value", I, I)


class Dynamic(Walk):
    q = VLA + "::dfsDynamicAttrs"
    level = 2

    def setup(self, c):
        # the list of an arbitrary set
        ex, st = c.ex, c.st
        r = ex.const("owner", I)
        st.assume(z3.And(r > 0, r < st.ghost["$alloc"]))
        o = set_of(ex, r)
        t = [fd["t"] for fd in ex.db.records["nixf::SemaAttrs"]["fields"] if fd["name"] == "Dynamic"][0]
        c.args[0] = HLV(r, o.cls, ("SA", "Dynamic"), t)
        SFn.setup(self, c)

    def call(self, top, c, callee):
        return ("names and values are visited in the environment given", callee.env(c) == self.env(top)) if isinstance(callee, Dfs) else Walk.call(self, top, c, callee)

    def list(self, c):
        v = c.ex.load(c.args[0], c.old or c.st)
        return v.len, v.data[".Key"], v.data[".Value"]

    def all(self, c, x=None, st=None):
        ln, k, v = self.list(c)
        a = self.an(c, st)
        return lambda j: z3.Implies(z3.And(0 <= j, j < (ln if x is None else x), v[j] != 0), z3.And(a.E[k[j]], a.E[v[j]]))

    def post(self, c):
        f = self.all(c)
        return [("every name with a value is visited, and the value", f(J) if not c.assuming else closed((J,), f, [lambda j: self.list(c)[2][j]]), P12)] + self.own(c)

    def candidates(self, c, ex, s, entry, mod, roots):
        ln, k, v = self.list(c)
        return [("%s: those so far are visited" % w, Arbitrary((J,), lambda st, j, x=x: self.all(c, x(st), st)(j), lambda st, j: v[j])) for w, x in locals_(ex, entry, mod, roots)[0]]


class DfsAttrs(Walk):
    q = VLA + "::dfsAttrs"
    level = 3

    def setup(self, c):
        ex, st = c.ex, c.st
        r = ex.const("owner", I)
        st.assume(z3.And(r > 0, r < NN))
        c.args[0] = set_of(ex, r)
        SFn.setup(self, c)

    def cases(self, c):
        return [self.sa(c).rec != 0]

    def sa(self, c):
        return Attrs(c.ex.load(c.args[0], c.old or c.st))

    def ret_syntax(self, c):
        return c.args[2]

    def ret_source(self, c):
        return c.args[3]

    def pre(self, c):
        return [("the syntax is not that of a `with`", z3.And(c.args[2] > 0, c.args[2] < NN, nkind(c.args[2]) != WITH), P12)]

    def node(self, c):
        return c.args[2]

    def names(self, c):
        sa = self.sa(c)
        return (lambda s: z3.Select(sa.has, s)), (lambda s: z3.Select(sa.key, s)), (lambda s: c.args[3])

    def maps(self, c):
        return [(self.sa(c).has, lambda s: True)]

    def call(self, top, c, callee):
        sa, e = self.sa(top), self.env(top)
        new = c.st.ghost["$env"]
        inside = z3.If(sa.rec != 0, new, e)
        fresh = z3.Implies(sa.rec != 0, new >= top.entry.ghost["$alloc"])
        if isinstance(callee, Dynamic):
            o = c.args[0]
            same = isinstance(o, HLV) and o.path == ("SA", "Dynamic")
            return "dynamic names are visited inside the set", z3.And(z3.BoolVal(same), o.ref == top.args[0].ref, callee.env(c) == inside, fresh)
        if isinstance(callee, Dfs):
            x = childof(callee, c)
            return "`inherit x` is looked up around the set, other values inside", z3.And(callee.env(c) == z3.If(VALKIND(x) == KIND(c.ex, "Inherit"), e, inside), fresh)
        return Walk.call(self, top, c, callee)

    def result(self, c, T, e):
        r = SFn.result(self, c, T, e)
        self.fresh_env(c.st, r, c.old.ghost["$alloc"])
        return r

    def post(self, c):
        ex, sa, e, r = c.ex, self.sa(c), self.env(c), c.ret
        rec = sa.rec != 0
        out = [("without `rec` names are looked up around the set", z3.Implies(z3.Not(rec), r == e), P12),
               ("with `rec` there is an environment inside that given", z3.Implies(rec, z3.And(r >= c.old.ghost["$alloc"], r < c.st.ghost["$alloc"], PAR(r) == e, SYN(r) == c.args[2])), P12),
               ("the definitions are new", each(c, lambda s: z3.Implies(z3.And(rec, z3.Select(DH(r), s)), z3.Select(DD(r), s) >= c.old.ghost["$alloc"]), lambda s: z3.Select(DD(r), s)), P12)]
        out += [(nm, self.guard(c, rec, f, sa), t) for nm, f, t in body_env(c, r, None, lambda s: c.args[3], lambda s: z3.Select(sa.has, s), lambda s: z3.Select(sa.key, s))]
        rec_nodes = lambda s: z3.Implies(z3.And(rec, z3.Select(sa.has, s)), self.an(c).T[z3.Select(sa.key, s)])
        out.append(("every name is recorded", each(c, rec_nodes, lambda s: z3.Select(sa.key, s)), P12))
        return out + covers(self, c, sa) + self.own(c)

    def guard(self, c, g, f, sa):
        return z3.Implies(g, f)

    def candidates(self, c, ex, s, entry, mod, roots):
        sa = self.sa(c)
        out = scope_candidates(self, c, ex, entry, mod, roots)
        now = lambda st: self.an(c, st)
        for w, x in locals_(ex, entry, mod, roots)[0]:
            before = lambda st, n, x=x: z3.And(z3.Select(sa.has, n), mappos(sa.has, n) < x(st))
            out.append(("%s: names so far are recorded" % w, Arbitrary((S,), lambda st, n, before=before: z3.Implies(before(st, n), now(st).T[z3.Select(sa.key, n)]), lambda st, n: mappos(sa.has, n))))
            out.append(("%s: values so far are visited" % w, Arbitrary((S,), lambda st, n, before=before: z3.Implies(z3.And(before(st, n), z3.Select(sa.val, n) != 0), now(st).E[z3.Select(sa.val, n)]), lambda st, n: mappos(sa.has, n))))
        return out


CURPOS = b"__curPos"


class Run(Walk):
    """the whole analysis, on a fresh object"""
    q = VLA + "::runOnAST"
    scc = None

    def env(self, c):
        return None

    def builtin(self, ex, s):
        return z3.Or(exposed(s), z3.Select(constants(ex)[1], s), s == text(b"builtins"), s == text(CURPOS))

    def setup(self, c):
        SFn.setup(self, c)
        ex, st = c.ex, c.st
        st.assume(closed((S,), lambda s: z3.Implies(z3.Select(PHAS, s), z3.Not(z3.Or(z3.Select(constants(ex)[1], s), s == text(b"builtins"), s == text(CURPOS)))), [lambda s: z3.Select(PHAS, s)]))

    def pre(self, c):
        a, n = self.an(c), self.node(c)
        return [("a node of the tree", z3.And(n > 0, n < NN), P5),
                ("nothing was analysed before", z3.And(*[m == z3.K(I, z3.BoolVal(False)) for m in (a.E, a.T, a.W, a.R, a.X)], a.made == z3.K(I, z3.BoolVal(False)), a.ul == z3.K(I, iv(0))), P12)]

    def names(self, c):
        return (lambda s: self.builtin(c.ex, s)), (lambda s: iv(0)), (lambda s: iv(src(c.ex, "DS_Builtin")))

    def maps(self, c):
        return [(PHAS, lambda s: z3.Not(z3.Select(PINT, s))), (constants(c.ex)[1], lambda s: z3.BoolVal(True))]

    def call(self, top, c, callee):
        if isinstance(callee, Dfs):
            c.st.ghost["$calls"] = simp(c.st.ghost["$calls"] + 1)
            return "the whole tree is visited", z3.And(callee.which(c) == "", childof(callee, c) == self.node(top), callee.env(c) == c.st.ghost["$env"])
        return Walk.call(self, top, c, callee)

    def post(self, c):
        if c.assuming:
            return []
        e = c.st.ghost["$env"]
        has, key, sr = self.names(c)
        return body_env(c, e, None, sr, has, key) + [
            ("the outermost environment is inside no other", z3.And(e >= c.old.ghost["$alloc"], PAR(e) == 0, SYN(e) == 0), P12),
            ("the tree is visited", z3.And(self.an(c).E[self.node(c)], c.st.ghost["$calls"] == 1), P12)] + self.own(c)

    def candidates(self, c, ex, s, entry, mod, roots):
        return scope_candidates(self, c, ex, entry, mod, roots)


class Emit(SFn):
    q = VLA + "::emitEnvLivenessWarning"
    analysis = False
    KINDS = ("DK_UnusedDefLet", "DK_UnusedDefLambdaNoArg_Formal", "DK_UnusedDefLambdaWithArg_Formal", "DK_UnusedDefLambdaWithArg_Arg")

    def env0(self, c):
        return c.arg(0, c.old or c.st)

    def modifies(self, c):
        return []

    def pre(self, c):
        e = self.env0(c)
        ok = lambda s: z3.Implies(z3.And(z3.Select(DH(e), s), DSYN(z3.Select(DD(e), s)) != 0), z3.Or(*[DSRC(z3.Select(DD(e), s)) == src(c.ex, x) for x in list(SOURCES) + ["DS_LambdaArg"]]))
        return [("an environment", z3.And(e > 0, e < c.st.ghost["$alloc"]), P5),
                ("its definitions are of a let or a function", each(c, ok, lambda s: z3.Select(DD(e), s)), P5 + P13)]

    def want(self, c, k, i, st):
        e = self.env0(c)
        return UNUSED(dk(c.ex, k), DH(e), DD(e), st.heap[UL], i, NONE)

    def post(self, c):
        e = self.env0(c)
        return self.own(c, **{k: self.want(c, k, mapcard(DH(e)), c.old) for k in self.KINDS}) if not c.assuming else []

    def candidates(self, c, ex, s, entry, mod, roots):
        return [("%s: %s so far" % (w, k), lambda st, k=k, x=x: st.ghost["$own:" + k] == self.want(c, k, x(st), c.entry)) for w, x in locals_(ex, entry, mod, roots)[0] for k in self.KINDS]


def used(h, d, ul, s, n):
    """a set of which one of the first n names is used is live"""
    return z3.Implies(z3.And(z3.Select(h, s), mappos(h, s) < n, z3.Select(ul, z3.Select(d, s)) > 0), LIVE(h, d, ul, n))


class IsLive(SFn):
    q = ENV + "::isLive"
    analysis = False

    def modifies(self, c):
        return []

    def post(self, c):
        e = c.this.ref
        if not c.assuming:      # a lemma, see lemmas()
            c.st.assume(closed((S,), lambda s: used(DH(e), DD(e), c.st.heap[UL], s, mapcard(DH(e))), [lambda s: z3.Select(DD(e), s)]))
        return [("a set is live if a name of it is used", c.ret == LIVE(DH(e), DD(e), c.st.heap[UL], mapcard(DH(e))), P13)]

    def candidates(self, c, ex, s, entry, mod, roots):
        e = c.this.ref
        return [("%s: no name so far is used" % w, lambda st, x=x: z3.Not(LIVE(DH(e), DD(e), st.heap[UL], x(st)))) for w, x in locals_(ex, entry, mod, roots)[0]]


class Quiet(SFn):
    """checks that change nothing the analysis records"""
    analysis = False

    def modifies(self, c):
        return []

    def pre(self, c):
        n = self.node(c)
        return [] if n is None else [("a node of the tree", z3.And(n > 0, n < NN), P5)]


class CheckBuiltins(Quiet):
    q = VLA + "::checkBuiltins"


class CheckLet(Quiet):
    q = VLA + "::checkLetInheritBuiltins"

    def setup(self, c):
        ex, st = c.ex, c.st
        r = ex.const("owner", I)
        st.assume(z3.And(r > 0, r < NN))
        c.args[0] = set_of(ex, r)
        SFn.setup(self, c)

    def node(self, c):
        return None


class Answer(SFn):
    """what is asked of the finished analysis"""
    def __init__(self, name, f):
        self.q, self.f = VLA + "::" + name, f

    analysis = False

    def modifies(self, c):
        return []

    def node(self, c):
        return c.args[0].ref if isinstance(c.args[0], HLV) else c.args[0]

    def post(self, c):
        return [("the answer is what was recorded", self.f(c, self.an(c), self.node(c), c.ret), P12)]


def _query(c, a, v, r):
    k = c.ex.db.enums["nixf::VariableLookupAnalysis::LookupResultKind"]["NoSuchVar"]
    return z3.And(r.f["Kind"] == z3.If(a.R[v], a.kind[v], k), r.f["Def"] == z3.If(a.R[v], a.df[v], 0))


def ptr(r):
    return r if z3.is_expr(r) else iv(0) if r.lv is None else r.lv.ref


def _scopes(c, a, v, r):
    return z3.If(a.X[v], z3.And(r.len == a.xl[v], z3.Implies(z3.And(0 <= J, J < r.len), z3.Select(r.data[""], J) == a.xe[v][J])), r.len == 0)


ANSWERS = [Answer("query", _query), Answer("toDef", lambda c, a, n, r: ptr(r) == z3.If(a.T[n], a.t[n], 0)),
           Answer("env", lambda c, a, n, r: ptr(r) == z3.If(a.E[n], a.e[n], 0)), Answer("getWithScopes", _scopes)]
CONTRACTS = ANSWERS + [LookupPrimOp(), LookupVar(), Dfs(), Trivial(), Dynamic(), DfsAttrs(), Run(), Emit(), IsLive(), CheckBuiltins(), CheckLet()]
SPEC, MODELS = ScopeSpec, ScopeModels
FNS = [c.q + k for c in CONTRACTS if c.q != Dfs.q for k in (('@0', '@1') if c.q == DfsAttrs.q else ('',))] + [Dfs.q + "#" + n + k for n in ("Node",) + tuple(Dfs.SUBS) for k in (["@%d" % i for i in range(7)] if n == "ExprLambda" else [""])]


def contracts():
    d = {c.q: c for c in CONTRACTS}
    for q in (A.IsStatic, A.StaticName):
        d[q.q] = q()
    return d


def lemmas():
    h, d, ul = z3.Const("h", NAMES), z3.Const("d", BYNAME), z3.Const("ul", ARR)
    n = z3.Int("n")
    l = lambda n: used(h, d, ul, S, n)
    return [("a set of which a name is used is live", P13, [
        ("base", [n <= 0, mapfacts(h, S)], l(n)),
        ("step", [n > 0, mapfacts(h, S), l(n - 1)], l(n))])]


SPECFUNS = [SCOPE, LOOK, NW, WI, CHI, CHW, UNV, ONE, UNUSED, LIVE]
