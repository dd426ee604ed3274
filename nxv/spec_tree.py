"""Contracts for the parent map, the walk upwards and the position lookup
(libnixf/src/Sema/ParentMap.cpp, libnixf/include/nixf/Basic/Nodes).

The tree is abstract: node n has nk(n) children kid(n, i), some of them null.
That it is a tree is what `placed` says of each node below the root: it is child
number idx(m) of up(m), and dep grows downwards.  height(n) bounds the depth below."""
import z3
from .vals import *
from .exec import Contract, select
from .driver import Spec
from .lib import Models
from .smt import SpecFun

M, J = z3.Ints("M!tree J!tree")
up, idx, dep, nk, height = (z3.Function(n, I, I) for n in ("up", "idx", "dep", "nk", "height"))
kid = SpecFun("kid", [I, I], I)


def placed(m):
    return z3.And(m > 0, up(m) > 0, dep(m) == dep(up(m)) + 1, 0 <= idx(m), idx(m) < nk(up(m)), kid(up(m), idx(m)) == m, height(m) >= 0, height(up(m)) > height(m), dep(up(m)) >= 0)


# what a node is told apart by: it is the child of its parent
kid.body = lambda n, i: [kid(n, i) >= 0, z3.Implies(z3.And(n > 0, 0 <= i, i < nk(n), kid(n, i) != 0), z3.And(up(kid(n, i)) == n, idx(kid(n, i)) == i, placed(kid(n, i))))]
kid.assumed = True
sub = SpecFun("sub", [I, I], B)        # m is n or below it
sub.body = lambda n, m: [z3.Implies(sub(n, m), z3.And(dep(m) >= dep(n), z3.Implies(m != n, z3.And(placed(m), dep(m) > dep(n))))),
                         z3.Implies(sub(n, m), low(n, m)),
                         sub(n, m) == z3.If(m == n, True, z3.If(z3.And(dep(m) > dep(n), placed(m)), sub(n, up(m)), False))]
anc = SpecFun("anc", [I, I], I)        # the child of n that m is or is below
anc.body = lambda n, m: [z3.Implies(z3.And(sub(n, m), m != n), z3.And(up(anc(n, m)) == n, placed(anc(n, m)), dep(anc(n, m)) == dep(n) + 1, sub(anc(n, m), m))),
                         anc(n, m) == z3.If(z3.Or(up(m) == n, dep(m) <= dep(n), dep(up(m)) >= dep(m)), m, anc(n, up(m)))]

# (what is below a node is below its parent, and that node is the child it is below)
low = SpecFun("low", [I, I], B)
low.body = lambda n, m: [z3.Implies(z3.And(sub(n, m), placed(n)), z3.And(sub(up(n), m), m != up(n), anc(up(n), m) == n)),
                         low(n, m) == z3.If(m == n, True, z3.If(z3.And(dep(m) > dep(n), placed(m)), low(n, up(m)), True))]

kind = z3.Function("F!nixf::Node.Kind", I, I)
# the nearest node at or above n, up to the root r, of a kind / that is an expression
near = SpecFun("near", [I, I, I], I)
nint = SpecFun("nint", [z3.ArraySort(I, I), I, I], I)     # how many of the first n are k
nint.body = lambda a, k, n: [nint(a, k, n) >= 0, nint(a, k, n) == z3.If(n <= 0, 0, nint(a, k, n - 1) + z3.If(z3.Select(a, n - 1) == k, 1, 0))]
near.body = lambda n, r, k: [near(n, r, k) == z3.If(kind(n) == k, n, z3.If(z3.Or(n == r, dep(up(n)) >= dep(n)), 0, near(up(n), r, k)))]
nearx = SpecFun("nearx", [I, I], I)
EXPRS = []


def EXPR(k):
    return z3.Or(*[k == v for v in EXPRS])


nearx.body = lambda n, r: [nearx(n, r) == z3.If(EXPR(kind(n)), n, z3.If(z3.Or(n == r, dep(up(n)) >= dep(n)), 0, nearx(up(n), r)))]


def cur(n, side, what):
    return z3.Function("F!nixf::Node.Range.%s.%s" % (side, what), I, I)(n)


def le(a, b):
    return z3.Or(a[0] < b[0], z3.And(a[0] == b[0], a[1] <= b[1]))


def inside(n, r):
    """the range r lies in that of the node n"""
    b, e = r
    return z3.And(le((cur(n, "LCur", "Line"), cur(n, "LCur", "Column")), b), le(e, (cur(n, "RCur", "Line"), cur(n, "RCur", "Column"))))


P = ("P23",)


class TreeModels(Models):
    pass


class TreeSpec(Spec):
    heap_classes = {"nixf::Node"}
    assumptions = ["children() of the nodes makes a tree: no node is the child of two, none is below itself (the parser makes every node once)",
                   "std::map is a map from addresses, boost::container::small_vector a sequence"]

    def start(self, ex, st):
        EXPRS[:] = [v for n, v in ex.db.enums["nixf::Node::NodeKind"].items() if n.startswith("NK_Expr") or n in ("NK_BeginExpr", "NK_EndExpr")]

    def child_loops(self, ex, c, s, entry, mod, roots):
        """what has been collected so far, of a loop over a list of the node"""
        out = []
        ct = c.contract
        lists = [v for _, v in ct.held(c)[1]]
        for r in sorted({r for r, _ in mod}, key=str):
            v0 = entry.store.get(r)
            if not isinstance(v0, Vec) or v0.q not in ("boost::container::small_vector", "boost::container::small_vector_base"):
                continue
            for i, x in entry.store.items():
                if z3.is_expr(x) and x.sort() == I and (i, "") in mod:
                    out += self.collected(c, r, i, v0, lists)
        return out

    def collected(self, c, r, i, v0, lists):
        out, ct = [], c.contract
        el = lambda st, k: select(st.store[r].data[""], k)
        out.append(("what was there stays", lambda st: z3.Implies(z3.And(0 <= M, M < v0.len), el(st, M) == select(v0.data[""], M))))
        out.append(("the first stays", lambda st: z3.Implies(v0.len > 0, el(st, iv(0)) == select(v0.data[""], iv(0)))))
        for v in lists:
            out.append(("one for each", lambda st: st.store[r].len == v0.len + st.store[i]))
            out.append(("each in its place", lambda st, v=v: z3.Implies(z3.And(0 <= M, M < st.store[i]), el(st, v0.len + M) == z3.Select(v.data[""], M))))
            out.append(("each in its place, seen from the list", lambda st, v=v: z3.Implies(z3.And(0 <= M - v0.len, M - v0.len < st.store[i]), el(st, M) == z3.Select(v.data[""], M - v0.len))))
            out.append(("each in its place, of the other", lambda st, v=v: z3.Implies(z3.And(v0.len <= M, M < st.store[r].len), el(st, M) == z3.Select(v.data[""], M - v0.len))))
        if ct.cls == "nixf::InterpolatedParts":
            f = ct.frag(c)
            kd, ip = f.data[".Kind"], f.data[".Interp"]
            k = SPK(c)
            out.append(("one for each interpolation so far", lambda st: st.store[r].len == nint(kd, k, st.store[i])))
            out.append(("each interpolation in its place", lambda st: z3.Implies(z3.And(0 <= M, M < st.store[i], z3.Select(kd, M) == k), z3.And(nint(kd, k, M) < st.store[r].len, nint(kd, k, M) >= 0, el(st, nint(kd, k, M)) == z3.Select(ip, M)))))
        return out

    def call_hook(self, ex, e, st):
        if e["name"] == "children" and e.get("virtual") and not e.get("nonvirt"):
            out = []
            for o, s in ex.obj_lv(e["obj"], e.get("arrow"), st, e.get("line")):
                n = o.ref
                s.assume(nk(n) >= 0)
                i = z3.Int("i!kid")
                T = e["t"]
                out.append((Vec(nk(n), {"": z3.Lambda([i], kid(n, i))}, T.targs[0], T.q), s))
            return out
        return None

    def loop_candidates(self, ex, s, entry, mod, roots):
        out = []
        c = ex.topctx
        if c is None:
            return out
        if c.contract.q.endswith("::children"):
            return self.child_loops(ex, c, s, entry, mod, roots)
        if c.contract.q.endswith("::descend"):
            n, v = c.this.ref, c.oldarg(0)
            rng = tuple((v.f[x].f["Line"], v.f[x].f["Column"]) for x in ("Begin", "End"))
            for r, v in entry.store.items():
                if z3.is_expr(v) and v.sort() == I and (r, "") in mod:
                    out.append(("no child before it contains the range", lambda st, r=r: z3.Implies(z3.And(0 <= J, J < st.store[r], kid(n, J) != 0), z3.Not(inside(kid(n, J), rng)))))
            return out
        if not c.contract.q.endswith("::dfs"):
            return out
        n = c.args[0]
        n = ex.load(n, entry) if isinstance(n, LV) else n
        m0 = c.get("ParentMap", entry)
        h0, v0 = z3.Select(m0.has, M), ex.map_get(m0, M, entry)
        for r, v in entry.store.items():
            if z3.is_expr(v) and v.sort() == I and (r, "") in mod:
                def f(st, r=r):
                    m = c.get("ParentMap", st)
                    h, v = z3.Select(m.has, M), ex.map_get(m, M, st)
                    below = z3.And(sub(n, M), M != n, idx(anc(n, M)) < st.store[r])
                    return z3.If(below, z3.And(h, z3.Implies(z3.Not(h0), v == up(M)), z3.Implies(h0, v == v0)), z3.And(h == h0, v == v0))
                out.append(("children before it are recorded", f))
        return out


class Dfs(Contract):
    q = "nixf::ParentMapAnalysis::dfs"
    scc = "dfs"

    def requires(self, c):
        return [("not below zero", z3.And(c.arg(0) >= 0, z3.Implies(c.arg(0) != 0, height(c.arg(0)) >= 0)))]

    def modifies(self, c):
        return [c.path(c.this, "ParentMap")]

    def measure(self, c):
        return [z3.If(c.arg(0) == 0, 0, height(c.arg(0)) + 1)]

    def ensures(self, c):
        ex, n, p = c.ex, c.oldarg(0), c.oldarg(1)
        m0, m1 = c.get("ParentMap", c.old), c.get("ParentMap")
        h0, h1, v0, v1 = z3.Select(m0.has, M), z3.Select(m1.has, M), ex.map_get(m0, M, c.st), ex.map_get(m1, M, c.st)
        return [("every node at or below it is recorded, with the node it is a child of", z3.Implies(z3.And(n != 0, sub(n, M)), z3.And(h1, z3.Implies(z3.Not(h0), v1 == z3.If(M == n, p, up(M))), z3.Implies(h0, v1 == v0))), P),
                ("nothing else changes", z3.Implies(z3.Not(z3.And(n != 0, sub(n, M))), z3.And(h1 == h0, v1 == v0)), P)]


ROOT = z3.Int("ROOT!tree")


def mapped(c):
    """the recorded map is the parent map of the tree below ROOT"""
    m = c.get("ParentMap", c.old) if c.old is not None else c.get("ParentMap")
    return z3.And(ROOT > 0, c.forall(M, z3.And(z3.Select(m.has, M) == sub(ROOT, M), z3.Implies(sub(ROOT, M), c.ex.map_get(m, M, c.st) == z3.If(M == ROOT, ROOT, up(M)))), z3.Select(m.has, M)))


class Run(Contract):
    q = "nixf::ParentMapAnalysis::runOnAST"

    def requires(self, c):
        m = c.get("ParentMap")
        return [("nothing is recorded yet", c.forall(M, z3.Not(z3.Select(m.has, M)), z3.Select(m.has, M))), ("a tree", height(c.arg(0).ref) >= 0)]

    def modifies(self, c):
        return [c.path(c.this, "ParentMap")]

    def ensures(self, c):
        n = c.arg(0).ref
        m1 = c.get("ParentMap")
        h1, v1 = z3.Select(m1.has, M), c.ex.map_get(m1, M, c.st)
        return [("the nodes of the tree are recorded, and no others", h1 == sub(n, M), P),
                ("the root is its own parent, any other node has the node it is a child of", z3.Implies(sub(n, M), v1 == z3.If(M == n, n, up(M))), P)]


class Query(Contract):
    q = "nixf::ParentMapAnalysis::query"

    def requires(self, c):
        return [("map", mapped(c))]

    def ensures(self, c):
        n = c.arg(0).ref
        return [("the recorded parent", c.ret == z3.If(sub(ROOT, n), z3.If(n == ROOT, n, up(n)), 0), P)]


class IsRoot(Contract):
    q = "nixf::ParentMapAnalysis::isRoot"
    nparams = 1

    def requires(self, c):
        return [("map", mapped(c))]

    def ensures(self, c):
        return [("it is the root", c.ret == (c.arg(0).ref == ROOT), P)]


class UpTo(Contract):
    q = "nixf::ParentMapAnalysis::upTo"
    scc = "upTo"

    def requires(self, c):
        return [("map", mapped(c)), ("in the tree", sub(ROOT, c.arg(0).ref))]

    def measure(self, c):
        return [dep(c.arg(0).ref) - dep(ROOT)]

    def ensures(self, c):
        return [("the nearest one of the kind at or above the node", c.ret == near(c.arg(0).ref, ROOT, c.oldarg(1)), P)]


class UpExpr(Contract):
    q = "nixf::ParentMapAnalysis::upExpr"
    scc = "upExpr"
    requires = UpTo.requires

    def measure(self, c):
        return [dep(c.arg(0).ref) - dep(ROOT)]

    def ensures(self, c):
        return [("the nearest expression at or above the node", c.ret == nearx(c.arg(0).ref, ROOT), P)]


class Descend(Contract):
    q = "nixf::Node::descend"
    scc = "descend"

    def requires(self, c):
        return [("a tree", height(c.this.ref) >= 0)]

    def measure(self, c):
        return [height(c.this.ref)]

    def ensures(self, c):
        n, r = c.this.ref, c.ret
        v = c.oldarg(0)
        rng = tuple((v.f[x].f["Line"], v.f[x].f["Column"]) for x in ("Begin", "End"))
        return [("a node is found when the range lies in that of this node", (r != 0) == inside(n, rng), P),
                ("the node found is this one or below it", z3.Implies(r != 0, sub(n, r)), P),
                ("the range lies in the node found", z3.Implies(r != 0, inside(r, rng)), P),
                ("and in none of its children", z3.Implies(z3.And(r != 0, 0 <= J, J < nk(r), kid(r, J) != 0), z3.Not(inside(kid(r, J), rng))), P)]


class Children(Contract):
    """the children of a node are the nodes it holds: every one of them, nothing else.  Dots, commas and the operator of `?` are punctuation."""
    punctuation = {"nixf::ExprSelect": {"Do"}, "nixf::Formal": {"Comma"}, "nixf::ExprOpHasAttr": {"O"}}

    def __init__(self, cls):
        self.cls = cls
        self.q = cls + "::children"

    def held(self, c):
        """(pointers, vectors of pointers) held by the node: (name, value, kind it is held under)"""
        ex, n = c.ex, c.this
        one, many = [], []
        k = self.cls
        while k:
            r = ex.db.records[k]
            for f in r["fields"]:
                T = f["t"]
                if f["name"] in self.punctuation.get(self.cls, ()):
                    continue
                node = lambda t: t.k == "rec" and t.q == "std::shared_ptr" and ex.heapclass(t.targs[0])
                if node(T):
                    one.append((f["name"], self.field(c, f, k)))
                elif T.k == "rec" and T.q == "std::vector" and node(T.targs[0]):
                    many.append((f["name"], self.field(c, f, k)))
            k = next((b.n for b in r["bases"] if b.n in ex.db.records and b.n != "nixf::Node"), None)
        return one, many

    def field(self, c, f, k=None):
        return c.ex.load(HLV(c.this.ref, k or self.cls, (f["name"],), f["t"]), c.old or c.st)

    def requires(self, c):
        """how the constructors leave the node"""
        one, many = self.held(c)
        p = dict(one)
        out = [("made by the constructor", z3.And(*[v >= 0 for v in p.values()]))]
        if self.cls == "nixf::AttrName":
            k = self.field(c, next(f for f in c.ex.db.records[self.cls]["fields"] if f["name"] == "Kind'"))
            E = c.ex.db.enums["nixf::AttrName::AttrNameKind"]
            of = {"ID": "ANK_ID", "String": "ANK_String", "Interp": "ANK_Interpolation"}
            out += [("of its kind", z3.And(*[z3.Implies(k != E[e], p[x] == 0) for x, e in of.items()])), ("some kind", z3.Or(*[k == v for v in E.values()]))]
        if self.cls == "nixf::Formal":
            out.append(("an ellipsis has nothing else", z3.Implies(p["Ellipsis"] != 0, z3.And(p["ID"] == 0, p["Default"] == 0))))
        if "O" in p:
            out.append(("an operator", p["O"] != 0))
        if self.cls == "nixf::InterpolatedParts":
            f = self.frag(c)
            kd, ip = f.data[".Kind"], f.data[".Interp"]
            out.append(("an interpolation is there", c.forall(M, z3.And(z3.Implies(z3.And(0 <= M, M < f.len, z3.Select(kd, M) == SPK(c)), z3.Select(ip, M) != 0)), z3.Select(ip, M))))
        return out

    def frag(self, c):
        return self.field(c, c.ex.db.records[self.cls]["fields"][0])

    def ensures(self, c):
        one, many = self.held(c)
        ch = c.ret
        el = lambda i: select(ch.data[""], i)
        out = []
        if self.cls == "nixf::InterpolatedParts":
            f = self.frag(c)
            kd, ip = f.data[".Kind"], f.data[".Interp"]
            return [("one for each interpolation", ch.len == nint(kd, SPK(c), f.len), P),
                    ("in their order", z3.Implies(z3.And(0 <= M, M < f.len, z3.Select(kd, M) == SPK(c)), z3.And(el(nint(kd, SPK(c), M)) == z3.Select(ip, M), nint(kd, SPK(c), M) < ch.len)), P)]
        at = [(n, lambda p, v=v: p == v) for n, v in one]
        for n, v in one:
            out.append(("%s is a child" % n, z3.Or(v == 0, *[z3.And(i < ch.len, el(i) == v) for i in ends(c, ch.len, len(one))]), P))
        offs = [iv(0), iv(1), iv(2)] + [v.len for _, v in many]
        for n, v in many:
            out.append(("every one of %s is a child" % n, z3.Implies(z3.And(0 <= M, M < v.len), z3.Or(*[z3.And(M + o < ch.len, el(M + o) == z3.Select(v.data[""], M)) for o in offs])), P))
        own = [el(M) == v for _, v in one]
        for _, v in many:
            own += [z3.And(0 <= M - o, M - o < v.len, el(M) == z3.Select(v.data[""], M - o)) for o in offs]
        out.append(("it has no other children", z3.Implies(z3.And(0 <= M, M < ch.len), z3.Or(el(M) == 0, *own)), P))
        return out


def ends(c, n, k):
    """the first and the last places of the list"""
    return [iv(i) for i in range(k + 1)] + [n - i for i in range(1, k + 1)]


def SPK(c):
    return c.ex.db.enums["nixf::InterpolablePart::InterpolablePartKind"]["SPK_Interpolation"]


NODES = ["AttrName", "AttrPath", "Binding", "Binds", "Dot", "ExprAssert", "ExprAttrs", "ExprCall", "ExprFloat", "ExprIf", "ExprInt", "ExprLambda", "ExprLegacyLet", "ExprLet", "ExprList", "ExprParen", "ExprPath", "ExprSPath", "ExprSelect",
         "ExprString", "ExprVar", "ExprWith", "Formal", "Formals", "Identifier", "Inherit", "InterpolatedParts", "Interpolation", "LambdaArg", "Misc", "Op", "ExprOp", "ExprBinOp", "ExprOpHasAttr", "ExprUnaryOp"]
CONTRACTS = [Dfs(), Run(), Query(), IsRoot(), UpTo(), UpExpr(), Descend()] + [Children("nixf::" + n) for n in NODES]
FNS = [c.q for c in CONTRACTS]


def contracts():
    return {c.q: c for c in CONTRACTS}


SPECFUNS = [sub, anc, low, nint]


def lemmas():
    return []


SPEC, MODELS = TreeSpec, TreeModels
