"""Contracts for the semantic attribute sets (libnixf/src/Sema/SemaActions.cpp).

An attribute set is its map of static names (name -> key node, value node,
kind), its list of dynamic attributes, and its `rec` keyword.  The functions
taking a `SemaAttrs &` are verified for the set inside an arbitrary node, which
covers a local one (it behaves as that of a node just made).

Ghost state: `$alloc` bounds the objects made so far (objects are numbered in
the order of their creation, so an object made later differs from all those a
pointer can reach); `$dup` maps an offset to what was reported there about a
name defined twice."""
import z3
from .vals import *
from .exec import Contract, select, mapkey, mapcard, mappos, mapfacts
from .smt import SpecFun
from .lib import Models
from . import spec_parser as P
from .spec_parser import ParserSpec, ParserModels, recur, lo, hi, nkind, wf, off, S, M, M2, N, F, P5, P6, P14

P10, P12 = ("P10",), ("P12",)
EA = "nixf::ExprAttrs"
ATTRS = [EA + ".SA.Static", EA + ".SA.Dynamic"]      # (whether a set is recursive never changes)
HAS = z3.ArraySort(SEQ, B)
REF = z3.ArraySort(SEQ, I)      # name -> node, or kind

Dup = z3.Datatype("Dup")
Dup.declare("dup", ("n", I), ("end", I), ("name", SEQ), ("pl", I), ("pr", I))
Dup = Dup.create()
DUPS = z3.ArraySort(I, Dup)


def fa(vs, body, pat):
    """for all vs (to be proved when no pattern can be made of the term)"""
    return z3.ForAll(vs, body) if choice(pat) else z3.ForAll(vs, body, patterns=[pat])


def choice(t):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            return True
        todo += x.children()
    return False


def rep(m, l, r, name, pl, pr):
    """one more report at an offset: a name defined again, with the place of the earlier definition"""
    return z3.Store(m, l, Dup.dup(Dup.n(z3.Select(m, l)) + 1, r, name, pl, pr))


def again(m, n, name, prev):
    return rep(m, lo(n), hi(n), name, lo(prev), hi(prev))


STATIC = z3.Function("name.static", I, B)
SNAME = z3.Function("name.text", I, SEQ)
ID = z3.Function("F!nixf::AttrName.ID", I, I)
idname = P.idname


def name_def(ex, n):
    """what a static name is, and its text"""
    E = ex.db.enums["nixf::AttrName::AttrNameKind"]
    K = ex.db.enums["nixf::InterpolablePart::InterpolablePartKind"]
    k = z3.Function("F!nixf::AttrName.Kind'", I, I)(n)
    p = F("ExprString", "Parts")(z3.Function("F!nixf::AttrName.String", I, I)(n))
    ln = z3.Function("F!nixf::InterpolatedParts.Fragments.len", I, I)(p)
    kd = z3.Select(z3.Function("F!nixf::InterpolatedParts.Fragments.[].Kind", I, ARR)(p), 0)
    tx = z3.Select(z3.Function("F!nixf::InterpolatedParts.Fragments.[].Escaped", I, z3.ArraySort(I, SEQ))(p), 0)
    literal = z3.And(ln == 1, kd == K["SPK_Escaped"])
    return z3.And(STATIC(n) == z3.Or(k == E["ANK_ID"], z3.And(k == E["ANK_String"], literal)),
                  SNAME(n) == z3.If(k == E["ANK_ID"], idname(ID(n)), tx))


# merging Y into X, in the order of Y's names: what is reported
MERGED = SpecFun("attrs.merged", [HAS, REF, HAS, REF, I, DUPS], DUPS)


def _merged(hx, kx, hy, ky, i, b):
    p = MERGED(hx, kx, hy, ky, i - 1, b)
    k = mapkey(hy, i - 1)
    return [MERGED(hx, kx, hy, ky, i, b) == z3.If(i <= 0, b, z3.If(z3.Select(hx, k), again(p, z3.Select(ky, k), k, z3.Select(kx, k)), p))]


MERGED.body = _merged

# inheriting the names a[0..k) into a set with the names h, keys y: what it has, by which key, and what is reported
IHAS = recur("inherit.has", [ARR, I, HAS], HAS, lambda p, a, j: z3.If(STATIC(a[j]), z3.Store(p, SNAME(a[j]), True), p))
IREF = SpecFun("inherit.key", [ARR, HAS, I, REF], REF)
IDUP = SpecFun("inherit.dup", [ARR, HAS, REF, I, DUPS], DUPS)


def _iref(a, h, k, b):
    p, n = IREF(a, h, k - 1, b), a[k - 1]
    return [IREF(a, h, k, b) == z3.If(k <= 0, b, z3.If(z3.And(STATIC(n), z3.Not(z3.Select(IHAS(a, k - 1, h), SNAME(n)))), z3.Store(p, SNAME(n), n), p))]


def _idup(a, h, y, k, b):
    p, n = IDUP(a, h, y, k - 1, b), a[k - 1]
    return [IDUP(a, h, y, k, b) == z3.If(k <= 0, b, z3.If(z3.And(STATIC(n), z3.Select(IHAS(a, k - 1, h), SNAME(n))), again(p, n, SNAME(n), z3.Select(IREF(a, h, k - 1, y), SNAME(n))), p))]


IREF.body, IDUP.body = _iref, _idup


class Attrs:
    """a SemaAttrs as the contracts see it"""
    def __init__(self, rec):
        m, d = rec.f["Static"], rec.f["Dynamic"]
        self.map, self.dyn = m, d
        self.has, self.key, self.val, self.kind = m.has, m.data[".Key"], m.data[".Value"], m.data[".Kind"]
        self.n = d.len
        self.d = {f: d.data["." + f] for f in ("Key", "Value", "Kind")}
        self.rec = rec.f["Recursive"]

    def same_static(self, o):
        return z3.And(self.has == o.has, self.key == o.key, self.val == o.val, self.kind == o.kind)

    def same_dynamic(self, o):
        return z3.And(self.n == o.n, *[self.d[f] == o.d[f] for f in self.d])

    def same(self, o):
        return z3.And(self.same_static(o), self.same_dynamic(o), self.rec == o.rec)

    def appended(self, o, key, val, kind):
        """this is o with one more dynamic attribute"""
        return z3.And(self.n == o.n + 1, *[self.d[f] == z3.Store(o.d[f], o.n, x) for f, x in (("Key", key), ("Value", val), ("Kind", kind))])

    def inserted(self, o, s, key, val, kind):
        return z3.And(self.has == z3.Store(o.has, s, True), self.key == z3.Store(o.key, s, key), self.val == z3.Store(o.val, s, val), self.kind == z3.Store(o.kind, s, kind))


def isset(ex, n):
    return nkind(n) == ex.db.enums["nixf::Node::NodeKind"]["NK_ExprAttrs"]


def KIND(ex, n):
    return iv(ex.db.enums["nixf::Attribute::AttributeKind"][n])


def set_of(ex, ref):
    t = [fd["t"] for fd in ex.db.records[EA]["fields"] if fd["name"] == "SA"][0]
    return HLV(ref, EA, ("SA",), t)


class AttrSpec(ParserSpec):
    assumptions = ParserSpec.assumptions + [
        "a node is the value of at most one attribute and no attribute set contains itself (the parser makes a tree): the two sets merged are distinct",
        "a new object differs from every object reachable before (objects are numbered in order of creation)",
        "std::map enumerates each of its keys once"]

    def start(self, ex, st):
        ParserSpec.start(self, ex, st)
        self.generic_loops = True
        st.ghost["$alloc"] = ex.const("alloc", I)
        st.assume(st.ghost["$alloc"] > 0)
        st.ghost["$dup"] = ex.const("dup", DUPS)

    def old(self, st, v):
        """a pointer leads to an object that exists"""
        if z3.is_expr(v) and v.sort() == I:
            st.assume(z3.And(v >= 0, v < st.ghost["$alloc"]))

    def pointer(self, ex, T):
        t = T.to if T.k in ("ref", "rref") else T
        if t.k == "ptr":
            return ex.heapclass(t.to)
        return self.nodeptr(ex, t)

    def existed(self, ex, st, r):
        return z3.And(0 < r, r < st.ghost["$alloc"])

    def on_alloc(self, ex, Ty, v, ref, st):
        st.assume(ref == st.ghost["$alloc"])
        st.ghost["$alloc"] = simp(st.ghost["$alloc"] + 1)
        ParserSpec.on_alloc(self, ex, Ty, v, ref, st)
        if Ty.n == EA:
            lm = ex.leafmap(v)
            ex.ob(st, lm[".SA.Recursive"] == lm[".Rec"], "a set is recursive if it has the keyword", None, P10 + P12)

    def heap_read(self, ex, lv, v, st):
        ParserSpec.heap_read(self, ex, lv, v, st)
        if lv.t is not None and self.pointer(ex, lv.t):
            self.old(st, v)

    def elem_read(self, ex, v, idx, x, st):
        ParserSpec.elem_read(self, ex, v, idx, x, st)
        self.old(st, x)

    def attribute(self, ex, st, has, m, key):
        """what every attribute in a set satisfies: the constructor asks for it"""
        k, v = z3.Select(m.data[".Key"], key), z3.Select(m.data[".Value"], key)
        nk = ex.db.enums["nixf::Node::NodeKind"]
        st.assume(z3.Implies(has, z3.And(k > 0, k < st.ghost["$alloc"], v >= 0, v < st.ghost["$alloc"])))
        if m.data[".Key"].sort().domain() == SEQ:
            st.assume(z3.Implies(has, z3.And(nkind(k) == nk["NK_AttrName"], self.subject(ex, v, z3.Select(m.data[".Kind"], key)))))

    def subject(self, ex, v, kind):
        """what is inherited from something selects from it"""
        return z3.Implies(kind == KIND(ex, "InheritFrom"), z3.And(v > 0, nkind(v) == ex.db.enums["nixf::Node::NodeKind"]["NK_ExprSelect"]))

    def map_write(self, ex, m, key, lm, how, st, line):
        if m.et is not None and m.et.k == "rec" and m.et.n == "nixf::Attribute":
            g = z3.BoolVal(True) if how == "insert_or_assign" else z3.Not(z3.Select(m.has, key))
            ex.ob(st, z3.Implies(g, z3.And(lm[".Key"] > 0, nkind(lm[".Key"]) == ex.db.enums["nixf::Node::NodeKind"]["NK_AttrName"])), "a static attribute's key is a name", line, P5 + P10)
            ex.ob(st, z3.Implies(g, self.subject(ex, lm[".Value"], lm[".Kind"])), "what is inherited from something selects from it", line, P5 + P10)

    def map_read(self, ex, m, key, st):
        if m.et is not None and m.et.k == "rec" and m.et.n == "nixf::Attribute":
            self.attribute(ex, st, z3.Select(m.has, key), m, key)
        else:
            ParserSpec.map_read(self, ex, m, key, st)

    # -- diagnostics --------------------------------------------------------
    def emitted(self, ex, st, kind, r, line):
        ParserSpec.emitted(self, ex, st, kind, r, line)
        kd = ex.db.enums["nixf::Diagnostic::DiagnosticKind"]["DK_DuplicatedAttrName"]
        g = simp(kind == kd)
        if z3.is_false(g):
            return
        l, rr = off(r.f["LCur"]), off(r.f["RCur"])
        m = st.ghost["$dup"]
        old = z3.Select(m, l)
        m2 = z3.Store(m, l, Dup.dup(Dup.n(old) + 1, rr, Dup.name(old), Dup.pl(old), Dup.pr(old)))
        st.ghost["$dup"] = m2 if z3.is_true(g) else z3.If(g, m2, m)

    def newdiag(self, ex, st, cls, kind):
        loc = ParserSpec.newdiag(self, ex, st, cls, kind)
        return loc

    def emit(self, ex, e, st):
        out = []
        for loc, s in ParserSpec.emit(self, ex, e, st):
            v = s.store[loc.root]
            m = s.ghost["$dup"]
            if z3.is_store(m) and is_const_int(simp(v.f["Kind"])):
                kd = ex.db.enums["nixf::Diagnostic::DiagnosticKind"]["DK_DuplicatedAttrName"]
                if ival(simp(v.f["Kind"])) == kd:
                    s.store[loc.root] = Rec(v.cls, dict(v.f, place=m.arg(1)))
            out.append((loc, s))
        return out

    def amend(self, st, at, **f):
        m = st.ghost["$dup"]
        o = z3.Select(m, at)
        st.ghost["$dup"] = z3.Store(m, at, Dup.dup(*[f.get(x, getattr(Dup, x)(o)) for x in ("n", "end", "name", "pl", "pr")]))

    def do_note(self, ex, st, o, av, e):
        d = ex.load(o, st)
        vs = [self._v(ex, a, st) for a in av]
        out = ParserSpec.do_note(self, ex, st, o, av, e)
        k = simp(vs[0])
        if "place" in d.f and is_const_int(k) and ival(k) == ex.db.enums["nixf::Note::NoteKind"]["NK_PrevDeclared"]:
            for _, s in out:
                self.amend(s, d.f["place"], pl=off(vs[1].f["LCur"]), pr=off(vs[1].f["RCur"]))
        return out

    def do_arg(self, ex, st, o, av, e):
        d = ex.load(o, st)
        if "place" in d.f and av:
            x = self._v(ex, av[0], st)
            if isinstance(x, Str):
                self.amend(st, d.f["place"], name=ex.as_seq(x))
        return ParserSpec.do_arg(self, ex, st, o, av, e)

    # -- loops --------------------------------------------------------------
    def loop_candidates(self, ex, s, entry, mod, roots):
        out = []
        c = ex.topctx
        g = lambda st, k: st.ghost[k]
        out.append(("diagnostics only grow", lambda st: g(st, "$gen") >= g(entry, "$gen")))
        out.append(("objects only grow", lambda st: g(st, "$alloc") >= g(entry, "$alloc")))
        for k in sorted(k for k in mod if k[0] == "heap" and k[1] == EA + ".SA.Recursive"):
            out.append(("every set's keyword stays", others(ex, entry, k, [])))
        for k in sorted(k for k in mod if k[0] not in ("heap", "ghost") and str(k[1]).endswith("Recursive")):
            out.append(("the keyword stays", lambda st, k=k: ex.leaf_get(st, k) == ex.leaf_get(entry, k)))
        f = getattr(c.contract, "candidates", None)
        if f is not None:
            out += f(c, ex, s, entry, mod, roots)
        return out

    def measures(self, ex, entry, mod, roots):
        f = getattr(ex.topctx.contract, "measures", None)
        return ParserSpec.measures(self, ex, entry, mod, roots) + (f(ex.topctx, ex, entry, mod, roots) if f else [])

    def path_end(self, ex, st, where):
        ParserSpec.path_end(self, ex, st, where)
        f = getattr(ex.topctx.contract if ex.topctx else None, "step", None)
        if f is not None and where == "loop":
            f(ex.topctx, ex, st)


ghosts = ("$alloc", "$dup")


class AFn(Contract):
    """an action on attribute sets"""
    ghost_ok = True
    sets = ()          # parameters that are sets
    silent = False     # reports no name as defined twice

    def setup(self, c):
        ex, st = c.ex, c.st
        sp = ex.spec
        c.entry = st.fork()
        for i in self.sets:
            r = ex.const("owner%d" % i, I)
            st.assume(z3.And(r > 0, r < st.ghost["$alloc"]))
            c.args[i] = set_of(ex, r)
        for i, a in enumerate(c.args):
            if i not in self.sets and z3.is_expr(a) and a.sort() == I:
                st.assume(z3.And(0 <= a, a < st.ghost["$alloc"]))
                t = ex.db.byq[self.q][0]["params"][i]["t"]
                if sp.nodeptr(ex, t):
                    sp.typed(ex, t.targs[0], a, st)
        for a in [c.this] + c.args:
            if isinstance(a, HLV) and not a.path:
                sp.old(st, a.ref)
                for _, f in sp.classinv(ex, a.cls, a.ref):
                    st.assume(f)

    def SA(self, c, i, st=None):
        return Attrs(c.ex.load(c.args[i], st or c.st))

    def oldSA(self, c, i):
        return self.SA(c, i, c.old or c.st)

    def at(self, c, ref, st=None):
        return Attrs(c.ex.load(set_of(c.ex, ref), st or c.st))

    def dup(self, c):
        return c.st.ghost["$dup"]

    def dup0(self, c):
        return c.old.ghost["$dup"]

    def result(self, c, T, e):
        P.bump(c)
        n = c.ex.const("alloc", I)
        c.st.assume(n >= c.old.ghost["$alloc"])
        c.st.ghost["$alloc"] = n
        if not self.silent:
            c.st.ghost["$dup"] = c.ex.const("dup", DUPS)
        r = self.res(c, T, e)
        top = c.ex.topctx
        f = top.contract.watch.get(self.q) if top is not None and isinstance(top.contract, Traced) else None
        if f is not None:
            top.contract.seen(top, c, r, f)
        return r

    def res(self, c, T, e):
        r = Contract.result(self, c, T, e)
        if z3.is_expr(r) and r.sort() == I:
            c.st.assume(r < c.st.ghost["$alloc"])
        return r

    def ensures(self, c):
        out = [("diagnostics only grow", c.st.ghost["$gen"] >= c.old.ghost["$gen"], P14),
               ("objects only grow", c.st.ghost["$alloc"] >= c.old.ghost["$alloc"], P5)]
        if self.silent:
            out.append(("no name is reported as defined twice", self.dup(c) == self.dup0(c), P10))
        return out + self.post(c)

    def post(self, c):
        return []


class Traced:
    """a function described by the actions it takes, in order: nothing else changes the sets"""
    watch = {}
    count = "$acts"

    def begin(self, c):
        st = c.st
        st.ghost[self.count] = iv(0)
        for k in [k for k in st.heap if k.startswith(EA + ".SA.")]:
            st.ghost["$as:" + k] = st.heap[k]
        st.ghost["$as:dup"] = st.ghost["$dup"]

    def still(self, st):
        """the sets are as the last action left them"""
        return z3.And(*[g == (st.ghost["$dup"] if k == "$as:dup" else st.heap[k[4:]]) for k, g in st.ghost.items() if k.startswith("$as:")])

    def seen(self, top, c, r, f):
        ex, st = c.ex, c.st
        what = c.contract.q.split("::")[-1]
        before = c.old
        ex.ob(st, self.still(before), "nothing changes the sets before %s" % what, None, P10)
        for nm, g in f(self, top, c, r):
            ex.ob(st, g, "%s: %s" % (what, nm), None, P10)
        st.ghost[self.count] = simp(st.ghost[self.count] + 1)
        for k in [k for k in st.ghost if k.startswith("$as:")]:
            st.ghost[k] = st.ghost["$dup"] if k == "$as:dup" else st.heap[k[4:]]

    def acts(self, c):
        return c.st.ghost[self.count]

    def candidates(self, c, ex, s, entry, mod, roots):
        out = [("the sets are as the last action left them", lambda st, k=k: g0(st, k)) for k, g0 in [("", lambda st, k: self.still(st))]]
        for nm, i in indices(ex, mod, roots, entry):
            out.append(("one action for each before %s" % nm, lambda st, i=i: st.ghost[self.count] == i(st)))
        return out


def same_place(a, b):
    """the same set"""
    if isinstance(a, HLV) and isinstance(b, HLV):
        return z3.And(a.ref == b.ref, z3.BoolVal(a.cls == b.cls and a.path == b.path))
    return z3.BoolVal(isinstance(a, LV) and isinstance(b, LV) and a.root == b.root and a.path == b.path)


class IsStatic(Contract):
    q = "nixf::AttrName::isStatic"
    ghost_ok = True

    def setup(self, c):
        c.st.assume(name_def(c.ex, c.this.ref))

    def ensures(self, c):
        return [("a name is static if it is an identifier or a string without interpolation", c.ret == STATIC(c.this.ref), P10)]


class StaticName(Contract):
    q = "nixf::AttrName::staticName"
    ghost_ok = True

    def setup(self, c):
        c.st.assume(name_def(c.ex, c.this.ref))

    def requires(self, c):
        return [("the name is static", STATIC(c.this.ref), P5)]

    def result(self, c, T, e):
        return c.ex.newloc(c.st, Str.seq(SNAME(c.this.ref)), None, "static name") if T.k in ("ref", "rref") else Str.seq(SNAME(c.this.ref))

    def ensures(self, c):
        v = c.ex.load(c.ret, c.st) if isinstance(c.ret, (LV, HLV)) else c.ret
        return [("it is the text of the name", c.ex.as_seq(v) == SNAME(c.this.ref), P10)]


class DupAttr(AFn):
    q = "nixf::Sema::dupAttr"

    def requires(self, c):
        out = []
        for i, w in ((1, "the place"), (2, "the earlier place")):
            l, r = c.arg(i).f["LCur"], c.arg(i).f["RCur"]
            out.append(("%s is a range of the source" % w, z3.And(wf(l), wf(r), off(l) <= off(r)), P14))
        return out

    def post(self, c):
        r, p = c.oldarg(1), c.oldarg(2)
        o = lambda x, s: off(x.f[s])
        return [("one report there, noting the earlier definition", self.dup(c) == rep(self.dup0(c), o(r, "LCur"), o(r, "RCur"), c.ex.as_seq(c.oldarg(0)), o(p, "LCur"), o(p, "RCur")), P10)]


class CheckRec(AFn):
    q = "nixf::Sema::checkAttrRecursiveForMerge"
    silent = True


def each(c, f, pat):
    """f(name) for every name: an arbitrary one when proving, quantified when assuming"""
    if not c.assuming:
        return f(S)
    x = z3.Const("all_name", SEQ)
    return fa([x], f(x), pat(x))


def others(ex, entry, k, refs):
    """objects other than these, made before, keep the field"""
    r = z3.Int("all_ref")
    a0 = entry.ghost["$alloc"]
    old = entry.heap[k[1]]
    return lambda st: fa([r], z3.Implies(z3.And(0 < r, r < a0, *[r != x for x in refs]), z3.Select(st.heap[k[1]], r) == z3.Select(old, r)), z3.Select(st.heap[k[1]], r))


def indices(ex, mod, roots, entry):
    leaves = ex.state_leaves(entry, roots)
    return [(ex.leafname(k), lambda st, k=k: ex.leaf_get(st, k)) for k in sorted((k for k in mod if k[0] not in ("heap", "ghost") and k in leaves and z3.is_expr(leaves[k]) and leaves[k].sort() == I), key=str)]


class MergeSets(AFn):
    q = "nixf::Sema::mergeAttrSets"
    sets = (0, 1)

    def requires(self, c):
        x, y = c.args[0], c.args[1]
        if isinstance(x, HLV) and isinstance(y, HLV):
            return [("the sets merged are distinct", x.ref != y.ref, P10)]
        return []

    def modifies(self, c):
        return [c.args[0]]

    def post(self, c):
        return merged(c, self.SA(c, 0), self.oldSA(c, 0), self.oldSA(c, 1)) + [
            ("the names in both are reported", self.dup(c) == alldups(self.oldSA(c, 0), self.oldSA(c, 1), self.dup0(c)), P10)]

    def candidates(self, c, ex, s, entry, mod, roots):
        out = []
        e = c.entry                     # the function's start
        x, y = Attrs(ex.load(c.args[0], e)), Attrs(ex.load(c.args[1], e))
        now = lambda st: self.SA(c, 0, st)
        n = z3.Const("all_name", SEQ)
        for k in sorted(k for k in mod if k[0] == "heap"):
            out.append(("%s of other objects stays" % k[1], others(ex, entry, k, [c.args[0].ref])))
        out.append(("the keyword stays", lambda st: now(st).rec == x.rec))
        x1 = Attrs(ex.load(c.args[0], entry))
        out.append(("static names stay", lambda st: now(st).same_static(x1)))
        out.append(("dynamic names stay", lambda st: now(st).same_dynamic(x1)))
        for nm, i in indices(ex, mod, roots, entry):
            inr = lambda st, n, i=i: z3.And(z3.Select(y.has, n), mappos(y.has, n) < i(st))

            def q(f, pat):
                return lambda st: fa([n], f(st), pat(st))
            out.append(("%s is an index" % nm, lambda st, i=i: i(st) >= 0))
            out.append(("names before %s are there" % nm, q(lambda st, inr=inr: z3.Select(now(st).has, n) == z3.Or(z3.Select(x.has, n), inr(st, n)), lambda st: z3.Select(now(st).has, n))))
            for f in ("key", "val", "kind"):
                out.append(("%s of names before %s" % (f, nm), q(lambda st, inr=inr, f=f: z3.Implies(z3.Select(now(st).has, n), z3.Select(getattr(now(st), f), n) == z3.If(z3.Select(x.has, n), z3.Select(getattr(x, f), n), z3.Select(getattr(y, f), n))), lambda st, f=f: z3.Select(getattr(now(st), f), n))))
            out.append(("reported before %s" % nm, lambda st, i=i: st.ghost["$dup"] == MERGED(x.has, x.key, y.has, y.key, i(st), e.ghost["$dup"])))
            out.append(("%s dynamic names added" % nm, lambda st, i=i: z3.And(now(st).n == x1.n + i(st), i(st) <= y.n)))
            j = z3.Int("all_j")
            for f in ("Key", "Value", "Kind"):
                out.append(("dynamic %s before %s" % (f, nm), lambda st, f=f, i=i: fa([j], z3.Implies(z3.And(0 <= j, j < now(st).n), z3.Select(now(st).d[f], j) == z3.If(j < x1.n, z3.Select(x1.d[f], j), z3.Select(y.d[f], j - x1.n))), z3.Select(now(st).d[f], j))))
        return out


def merged(c, z, x, y):
    """z is x with what y adds"""
    ns = lambda f: each(c, f, lambda s: z3.Select(z.has, s))
    pick = lambda f, s: z3.Implies(z3.Select(z.has, s), z3.Select(getattr(z, f), s) == z3.If(z3.Select(x.has, s), z3.Select(getattr(x, f), s), z3.Select(getattr(y, f), s)))
    out = [("the names of both are there", ns(lambda s: z3.Select(z.has, s) == z3.Or(z3.Select(x.has, s), z3.Select(y.has, s))), P10)]
    for f, w in (("key", "name"), ("val", "value"), ("kind", "kind")):
        out.append(("the first definition's %s is kept" % w, each(c, lambda s, f=f: pick(f, s), lambda s, f=f: z3.Select(getattr(z, f), s)), P10))
    out.append(("the dynamic names of both are there", z.n == x.n + y.n, P10))
    for f in ("Key", "Value", "Kind"):
        out.append(("the dynamic names of both are there, in order: %s" % f, c.forall(M, z3.Implies(z3.And(0 <= M, M < z.n), z3.Select(z.d[f], M) == z3.If(M < x.n, z3.Select(x.d[f], M), z3.Select(y.d[f], M - x.n))), z3.Select(z.d[f], M)), P10))
    out.append(("the keyword stays", z.rec == x.rec, P10))
    return out


def alldups(x, y, m):
    return MERGED(x.has, x.key, y.has, y.key, mapcard(y.has), m)


def one_tree(c, x, own, e):
    """the parser makes a tree: a value is in one place only"""
    return z3.And(*[z3.Implies(z3.Select(x.has, s), z3.And(z3.Or(z3.Select(x.val, s) != e, e == 0), z3.Select(x.val, s) != own)) for s in [SNAME(c.args[1])]])


class InsertAttr(AFn):
    q = "nixf::Sema::insertAttr"
    sets = (0,)

    def setup(self, c):
        AFn.setup(self, c)
        x = self.SA(c, 0)
        c.ex.spec.attribute(c.ex, c.st, z3.Select(x.has, SNAME(c.args[1])), x.map, SNAME(c.args[1]))
        c.st.assume(one_tree(c, x, c.args[0].ref, c.args[2]))

    def requires(self, c):
        return [("there is a name", c.arg(1) > 0, P5), ("what is inherited from something selects from it", c.ex.spec.subject(c.ex, c.args[2], c.args[3]), P10 + P5)]

    def target(self, c):
        """the set already there under this name, or none"""
        st = c.old or c.st
        x = self.SA(c, 0, st)
        n, e = c.args[1], c.args[2]
        s = SNAME(n)
        v = z3.Select(x.val, s)
        hit = z3.And(STATIC(n), z3.Select(x.has, s))
        merge = z3.And(hit, v != 0, isset(c.ex, v), e != 0, isset(c.ex, e))
        return s, v, hit, merge

    def modifies(self, c):
        s, v, hit, merge = self.target(c)
        return [c.args[0], set_of(c.ex, z3.If(merge, v, 0))]

    def post(self, c):
        s, v, hit, merge = self.target(c)
        n, e, k = c.args[1], c.args[2], c.args[3]
        z, x = self.SA(c, 0), self.oldSA(c, 0)
        d, d0 = self.dup(c), self.dup0(c)
        out = [("a dynamic name with a value is added to the dynamic ones", z3.Implies(z3.And(z3.Not(STATIC(n)), e != 0), z3.And(z.appended(x, n, e, k), z.same_static(x), d == d0)), P10),
               ("a new static name with a value is added", z3.Implies(z3.And(STATIC(n), z3.Not(hit), e != 0), z3.And(z.inserted(x, s, n, e, k), z.same_dynamic(x), d == d0)), P10),
               ("a name without a value is not added", z3.Implies(z3.And(e == 0, z3.Not(hit)), z3.And(z.same(x), d == d0)), P10),
               ("a name there already is reported and not replaced", z3.Implies(z3.And(hit, z3.Not(merge)), z3.And(z.same(x), d == again(d0, n, s, z3.Select(x.key, s)))), P10),
               ("the set merged into is still the name's value", z3.Implies(merge, z.same(x)), P10), ("the keyword stays", z.rec == x.rec, P10)]
        out.append(("the keyword of the set merged into stays", z3.Implies(merge, self.at(c, v).rec == self.at(c, v, c.old).rec), P10))
        if c.assuming:
            return out
        zz, xx, yy = self.at(c, v), self.at(c, v, c.old), self.at(c, e, c.old)
        for nm, f, t in merged(c, zz, xx, yy) + [("the names in both are reported", d == alldups(xx, yy, d0), P10)]:
            out.append(("two sets of one name are merged: " + nm, z3.Implies(merge, f), t))
        return out


class LowerName(AFn):
    q = "nixf::Sema::lowerInheritName"
    sets = (0,)

    def requires(self, c):
        n = c.args[1]
        return [("it is inherited", c.arg(3) != KIND(c.ex, "Plain"), P10 + P5),
                ("what is inherited from something selects from it", z3.Implies(z3.And(n != 0, STATIC(n)), c.ex.spec.subject(c.ex, c.args[2], c.args[3])), P10 + P5)]

    def modifies(self, c):
        return [c.args[0]]

    def post(self, c):
        n, e, k = c.args[1], c.args[2], c.args[3]
        s = SNAME(n)
        z, x = self.SA(c, 0), self.oldSA(c, 0)
        d, d0 = self.dup(c), self.dup0(c)
        hit = z3.Select(x.has, s)
        st = z3.And(n != 0, STATIC(n))
        return [("a missing or dynamic name is not added", z3.Implies(z3.Not(st), z3.And(z.same(x), d == d0)), P10),
                ("a new name is added, marked inherited", z3.Implies(z3.And(st, z3.Not(hit)), z3.And(z.inserted(x, s, n, e, k), d == d0)), P10),
                ("a name there already is reported and not replaced", z3.Implies(z3.And(st, hit), z3.And(z.same_static(x), d == again(d0, n, s, z3.Select(x.key, s)))), P10),
                ("dynamic names and the keyword stay", z3.And(z.same_dynamic(x), z.rec == x.rec), P10)]


def path1(p, n):
    """p is a path of the one name n"""
    a, ln = z3.Function("F!nixf::AttrPath.Names.[]", I, ARR)(p), z3.Function("F!nixf::AttrPath.Names.len", I, I)(p)
    return z3.And(p != 0, ln == 1, z3.Select(a, 0) == n)


def desugared(ex, v, n, e):
    """v is what `inherit n` or `inherit (e) n` stands for"""
    nk = ex.db.enums["nixf::Node::NodeKind"]
    at = z3.And(lo(v) == lo(n), hi(v) == hi(n))
    i = F("ExprVar", "ID")(v)
    var = z3.And(v != 0, nkind(v) == nk["NK_ExprVar"], i != 0, idname(i) == SNAME(n), at)
    sel = z3.And(v != 0, nkind(v) == nk["NK_ExprSelect"], F("ExprSelect", "E")(v) == e, path1(F("ExprSelect", "Path")(v), n), F("ExprSelect", "Default")(v) == 0, at)
    return z3.If(e == 0, var, sel)


class Desugar(AFn):
    q = "nixf::Sema::desugarInheritExpr"
    silent = True

    def requires(self, c):
        return [("there is a name", c.arg(0) > 0, P5)]

    def setup(self, c):
        AFn.setup(self, c)
        c.st.assume(name_def(c.ex, c.args[0]))

    def post(self, c):
        n, e = c.oldarg(0), c.oldarg(1)
        v, k = c.ret.f["first"], c.ret.f["second"]
        return [("it is marked inherited", k == z3.If(e == 0, KIND(c.ex, "Inherit"), KIND(c.ex, "InheritFrom")), P10),
                ("a static name stands for the variable, or the attribute of the expression", z3.Implies(STATIC(n), desugared(c.ex, v, n, e)), P10),
                ("a dynamic name stands for nothing", z3.Implies(z3.Not(STATIC(n)), v == 0), P10), ("null or an object", z3.And(v >= 0, v < c.st.ghost["$alloc"]), P5)]


class LowerInherit(AFn):
    q = "nixf::Sema::lowerInherit"
    sets = (0,)

    def modifies(self, c):
        return [c.args[0]]

    def lists(self, c, st):
        n = c.args[1].ref if isinstance(c.args[1], HLV) else c.args[1]
        return z3.Function("F!nixf::Inherit.Names.[]", I, ARR)(n), z3.Function("F!nixf::Inherit.Names.len", I, I)(n), F("Inherit", "E")(n)

    def facts(self, c, z, x, a, k, e, d, d0):
        kd = z3.If(e == 0, KIND(c.ex, "Inherit"), KIND(c.ex, "InheritFrom"))
        new = lambda s: z3.And(z3.Select(z.has, s), z3.Not(z3.Select(x.has, s)))
        return [("the names are there", lambda s: z.has == IHAS(a, k, x.has)),
                ("each by its first occurrence", lambda s: z.key == IREF(a, x.has, k, x.key)),
                ("each new one stands for the variable, or the attribute of the expression, and is marked inherited", lambda s: z3.Implies(new(s), z3.And(desugared(c.ex, z3.Select(z.val, s), z3.Select(z.key, s), e), z3.Select(z.kind, s) == kd))),
                ("each earlier one keeps its value", lambda s: z3.Implies(z3.Select(x.has, s), z3.And(z3.Select(z.has, s), z3.Select(z.val, s) == z3.Select(x.val, s), z3.Select(z.kind, s) == z3.Select(x.kind, s)))),
                ("repeated names are reported", lambda s: d == IDUP(a, x.has, x.key, k, d0)),
                ("dynamic names and the keyword stay", lambda s: z3.And(z.same_dynamic(x), z.rec == x.rec))]

    def post(self, c):
        a, n, e = self.lists(c, c.old)
        z, x = self.SA(c, 0), self.oldSA(c, 0)
        return [(nm, each(c, f, lambda s: z3.Select(z.has, s)) if "each" in nm and "first" not in nm else f(S), P10) for nm, f in self.facts(c, z, x, a, n, e, self.dup(c), self.dup0(c))]

    def candidates(self, c, ex, s, entry, mod, roots):
        out = []
        a, n, e = self.lists(c, entry)
        x = Attrs(ex.load(c.args[0], c.entry))
        for k in sorted(k for k in mod if k[0] == "heap"):
            out.append(("%s of other objects stays" % k[1], others(ex, entry, k, [c.args[0].ref])))
        for nm, i in indices(ex, mod, roots, entry):
            out.append(("%s is an index" % nm, lambda st, i=i: z3.And(i(st) >= 0, i(st) <= n)))
            for j in range(6):
                out.append(("fact %d before %s" % (j, nm), lambda st, i=i, j=j: self.facts(c, self.SA(c, 0, st), x, a, i(st), e, st.ghost["$dup"], c.entry.ghost["$dup"])[j][1](S)))
        return out


def names(ref):
    return z3.Function("F!nixf::AttrPath.Names.[]", I, ARR)(ref), z3.Function("F!nixf::AttrPath.Names.len", I, I)(ref)


class SelectOrCreate(AFn):
    """one step for each name but the last"""
    q = "nixf::Sema::selectOrCreate"
    sets = (0,)
    outcomes = ("none", "same", "nested")

    def setup(self, c):
        AFn.setup(self, c)
        r = c.ex.const("path", I)
        t = [fd["t"] for fd in c.ex.db.records["nixf::AttrPath"]["fields"] if fd["name"] == "Names"][0]
        c.st.assume(z3.And(r > 0, r < c.st.ghost["$alloc"]))
        c.args[1] = HLV(r, "nixf::AttrPath", ("Names",), t)
        c.entries = []

    def requires(self, c):
        p = c.args[1]
        if not (isinstance(p, HLV) and p.cls == "nixf::AttrPath" and p.path == ("Names",)):
            raise Unsupported("names that are not those of a path")
        return [("the path has a name", names(p.ref)[1] > 0, P5)]

    def modifies(self, c):
        return ATTRS + [c.args[0]] * isinstance(c.args[0], LV)

    def res(self, c, T, e):
        if c.outcome == "none":
            return Ptr(None)
        if c.outcome == "same":
            return Ptr(c.args[0])
        r = c.ex.const("inner", I)
        c.st.assume(z3.And(r > 0, r < c.st.ghost["$alloc"]))
        return Ptr(set_of(c.ex, r))

    # -- the walk
    def walker(self, c, ex, a, b=None):
        """(index, set) of the walk in a state: the locals a step moves"""
        sets = [r for r, x in a.store.items() if isinstance(x, Ptr) and isinstance(x.lv, HLV) and x.lv.cls == EA and x.lv.path == ("SA",)]
        if b is not None:
            sets = [r for r in sets if isinstance(b.store.get(r), Ptr)]
        num = lambda x: x if z3.is_expr(x) and x.sort() == I else x.idx if isinstance(x, It) else None
        if b is not None:
            self.ix = [r for r, x in a.store.items() if num(x) is not None and r in b.store and num(b.store[r]) is not None and z3.is_int_value(simp(num(b.store[r]) - num(x))) and ival(simp(num(b.store[r]) - num(x))) == 1 and ex.locname.get(r) is not None]
            self.sx = sets
        if len(self.ix) != 1 or len(self.sx) != 1:
            raise Unsupported("the walk along the path is not recognised")
        return lambda st: (num(st.store[self.ix[0]]), st.store[self.sx[0]].lv.ref)

    def heap_same(self, a, b, but=None):
        out = [a.ghost["$dup"] == b.ghost["$dup"]]
        r = z3.Int("S!ref")
        for k in a.heap:
            if not k.startswith(EA + ".SA."):
                continue
            if but is None:
                out.append(a.heap[k] == b.heap[k])
            else:
                out.append(z3.Implies(z3.And(0 < r, r < a.ghost["$alloc"], r != but), z3.Select(a.heap[k], r) == z3.Select(b.heap[k], r)))
        return z3.And(*out)

    def case(self, c, st, i, q):
        a, _ = names(c.args[1].ref)
        n = z3.Select(a, i)
        x = self.at(c, q, st)
        s = SNAME(n)
        v = z3.Select(x.val, s)
        hit = z3.Select(x.has, s)
        go = z3.And(hit, z3.Select(x.kind, s) == KIND(c.ex, "Plain"), v != 0, isset(c.ex, v))
        return n, x, s, v, hit, go

    def step(self, c, ex, st):
        a = ex.iter0
        w = self.walker(c, ex, a, st)
        (i, q), (j, p) = w(a), w(st)
        n, x, s, v, hit, go = self.case(c, a, i, q)
        z = self.at(c, q, st)
        new = self.at(c, p, st)
        empty = z3.And(p >= a.ghost["$alloc"], isset(ex, p), new.has == z3.K(SEQ, z3.BoolVal(False)), new.n == 0, new.rec == 0, F("ExprAttrs", "Rec")(p) == 0, F("ExprAttrs", "Body")(p) == 0, lo(p) == lo(n), hi(p) == hi(n))
        st_ = z3.And(n != 0, STATIC(n))
        dyn = z3.And(n != 0, z3.Not(STATIC(n)))
        plain = KIND(ex, "Plain")
        rest = self.heap_same(a, st, q)
        obs = [("the next name comes next", j == i + 1), ("a missing name is passed over", z3.Implies(n == 0, z3.And(p == q, self.heap_same(a, st)))),
               ("a set there already is entered", z3.Implies(z3.And(st_, go), z3.And(p == v, self.heap_same(a, st)))),
               ("what is there already and is no set is not entered", z3.Not(z3.And(st_, hit, z3.Not(go)))),
               ("a set is made for a new name", z3.Implies(z3.And(st_, z3.Not(hit)), z3.And(empty, z.inserted(x, s, n, p, plain), z.same_dynamic(x), z.rec == x.rec, rest))),
               ("a set is made for a dynamic name", z3.Implies(dyn, z3.And(empty, z.appended(x, n, p, plain), z.same_static(x), z.rec == x.rec, rest)))]
        for nm, f in obs:
            ex.ob(st, f, "walking the path: " + nm, None, P10, assume=False)
        c.walked = w

    def candidates(self, c, ex, s, entry, mod, roots):
        out = []
        c.entries.append(entry)
        ln = names(c.args[1].ref)[1]
        for r in [r for r, x in entry.store.items() if isinstance(x, Ptr) and isinstance(x.lv, HLV)]:
            ref = lambda st, r=r: st.store[r].lv.ref
            out.append(("%s points to an object" % (ex.locname.get(r) or "it"), lambda st, ref=ref: z3.And(ref(st) > 0, ref(st) < st.ghost["$alloc"])))
        for nm, i in indices(ex, mod, roots, entry):
            out.append(("%s is an index" % nm, lambda st, i=i: z3.And(0 <= i(st), i(st) < ln)))
        return out

    def measures(self, c, ex, entry, mod, roots):
        ln = names(c.args[1].ref)[1]
        return [("names left after %s" % nm, lambda st, i=i: ln - i(st)) for nm, i in indices(ex, mod, roots, entry)]

    def post(self, c):
        if c.assuming:
            return []
        ex, st = c.ex, c.st
        w = getattr(c.ex.topctx, "walked", None)
        heads = {id(e): e for e in c.ex.topctx.entries}
        if w is None or len({e.loopid for e in heads.values() if hasattr(e, "loopid")}) > 1:
            raise Unsupported("the walk along the path is not recognised")
        top = c.ex.topctx
        out = []
        e = top.entries[-1]
        i0, q0 = w(e)
        out.append(("the walk starts at the set given and the first name", z3.And(i0 == 0, q0 == c.args[0].ref, self.heap_same(c.old, e)), P10))
        a = ex.iter0
        i, q = w(a)
        n, x, s, v, hit, go = self.case(c, a, i, q)
        ln = names(c.args[1].ref)[1]
        if not isinstance(c.ret, Ptr) or c.ret.lv is None:
            out.append(("the walk ends early only at what is there already and is no set, which is reported",
                        z3.And(0 <= i, i + 1 < ln, n != 0, STATIC(n), hit, z3.Not(go), self.dup(c) == again(a.ghost["$dup"], n, s, z3.Select(x.key, s)), *[a.heap[k] == st.heap[k] for k in a.heap if k.startswith(EA + ".SA.")]), P10))
        else:
            out.append(("the walk ends at the last name", z3.And(i + 1 == ln, q == c.ret.lv.ref, self.heap_same(a, st)), P10))
        return out


class AddAttr(Traced, AFn):
    q = "nixf::Sema::addAttr"
    sets = (0,)

    def setup(self, c):
        AFn.setup(self, c)
        self.begin(c)
        c.st.ghost["$inner"] = iv(0)

    def modifies(self, c):
        return ATTRS + [c.args[0]] * isinstance(c.args[0], LV)

    def path(self, c):
        a = c.args[1]
        return a.ref if isinstance(a, HLV) else a

    def on_select(self, top, c, r):
        p = c.args[1]
        c.st.ghost["$inner"] = r.lv.ref if isinstance(r, Ptr) and r.lv is not None else iv(0)
        return [("the first action", c.old.ghost[self.count] == 0), ("in the set given", same_place(c.args[0], top.args[0])), ("along the path", p.ref == self.path(top))]

    def on_insert(self, top, c, r):
        a, n = names(self.path(top))
        s = c.args[0]
        return [("the second action", c.old.ghost[self.count] == 1), ("in the set the path leads to", z3.And(z3.BoolVal(isinstance(s, HLV) and s.cls == EA and s.path == ("SA",)), (s.ref if isinstance(s, HLV) else iv(0)) == c.old.ghost["$inner"])),
                ("the last name", c.args[1] == z3.Select(a, n - 1)), ("the value given", c.args[2] == top.oldarg(2)), ("as a plain attribute", c.args[3] == KIND(c.ex, "Plain"))]

    watch = {"nixf::Sema::selectOrCreate": on_select, "nixf::Sema::insertAttr": on_insert}

    def post(self, c):
        keeps = [("the keyword stays", self.SA(c, 0).rec == self.oldSA(c, 0).rec, P10 + P12)]
        if c.assuming:
            return keeps
        a, n = names(self.path(c))
        return keeps + [("the path is followed and the last name added where it leads", self.acts(c) == z3.If(z3.And(c.st.ghost["$inner"] != 0, z3.Select(a, n - 1) != 0), 2, 1), P10),
                ("nothing else changes the sets", self.still(c.st), P10)]


class LowerBinds(Traced, AFn):
    q = "nixf::Sema::lowerBinds"
    sets = (0,)
    modifies = AddAttr.modifies

    def setup(self, c):
        AFn.setup(self, c)
        self.begin(c)

    def bind(self, top, c):
        b = top.args[1].ref
        return z3.Select(z3.Function("F!nixf::Binds.Bindings.[]", I, ARR)(b), c.old.ghost[self.count]), b

    def on_inherit(self, top, c, r):
        n, b = self.bind(top, c)
        return [("into the set given", same_place(c.args[0], top.args[0])), ("the next binding, an inherit", z3.And(c.args[1].ref == n, nkind(n) == c.ex.db.enums["nixf::Node::NodeKind"]["NK_Inherit"]))]

    def on_add(self, top, c, r):
        n, b = self.bind(top, c)
        return [("into the set given", same_place(c.args[0], top.args[0])), ("the next binding's path", z3.And(AddAttr.path(self, c) == F("Binding", "Path")(n), nkind(n) == c.ex.db.enums["nixf::Node::NodeKind"]["NK_Binding"])),
                ("the next binding's value", c.args[2] == F("Binding", "Value")(n))]

    watch = {"nixf::Sema::lowerInherit": on_inherit, "nixf::Sema::addAttr": on_add}

    def post(self, c):
        keeps = [("the keyword stays", self.SA(c, 0).rec == self.oldSA(c, 0).rec, P10 + P12)]
        if c.assuming:
            return keeps
        return keeps + [("every binding is added, in order", self.acts(c) == z3.Function("F!nixf::Binds.Bindings.len", I, I)(c.args[1].ref), P10), ("nothing else changes the sets", self.still(c.st), P10)]


class OnExprAttrs(Traced, P.OnExprAttrs):
    silent = False

    def setup(self, c):
        AFn.setup(self, c)
        self.begin(c)
        x = c.ex.load(set_of(c.ex, iv(0)), c.st)
        for k, t in c.ex.leafmap(x).items():
            c.st.ghost["$sa:" + k] = t

    sets = ()

    def modifies(self, c):
        return list(ATTRS)

    def bare(self, top, x):
        return z3.And(x.has == z3.K(SEQ, z3.BoolVal(False)), x.n == 0, x.rec == top.oldarg(2))

    def on_lower(self, top, c, r):
        b = c.args[1]
        x = c.ex.load(c.args[0], c.st)
        for k, t in c.ex.leafmap(x).items():
            c.st.ghost["$sa:" + k] = t
        return [("once", c.old.ghost[self.count] == 0), ("the bindings given", (b.ref if isinstance(b, HLV) else b) == top.oldarg(1)), ("into an empty set", self.bare(top, Attrs(c.ex.load(c.args[0], c.old))))]

    watch = {"nixf::Sema::lowerBinds": on_lower}

    def ensures(self, c):
        out = P.OnExprAttrs.ensures(self, c)
        if c.assuming:
            return out
        x = c.ex.load(set_of(c.ex, c.ret), c.st)
        bs = c.oldarg(1)
        out.append(("the bindings are added if there are any", self.acts(c) == z3.If(bs != 0, 1, 0), P10))
        out.append(("its attributes are those of the bindings", z3.If(bs != 0, z3.And(*[t == c.st.ghost["$sa:" + k] for k, t in c.ex.leafmap(x).items() if t.sort() is not None]), self.bare(c, Attrs(x))), P10))
        return out


SPEC, MODELS = AttrSpec, ParserModels
CONTRACTS = [IsStatic(), StaticName(), DupAttr(), CheckRec(), MergeSets(), InsertAttr(), LowerName(), Desugar(), LowerInherit(), SelectOrCreate(), AddAttr(), LowerBinds(), OnExprAttrs()]
FNS = [c.q for c in CONTRACTS]


def contracts():
    return {c.q: c for c in CONTRACTS}


def lemmas():
    return []


SPECFUNS = [MERGED, IHAS, IREF, IDUP]
