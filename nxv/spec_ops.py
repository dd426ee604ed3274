"""Contracts for the grouping of operators (libnixf/src/Parse/ParseOp.cpp).

An operator tree is the one Nix's LR grammar builds iff at every operator the
conflict between the rule before it and the operator itself was resolved as the
precedence declarations say:
  * below a rule with operator p on its left, every operator q on the left
    spine of the operand was shifted: q binds tighter than p, or both are of
    one right-associative level;
  * every rule with operator p on the right spine of the left operand of q was
    reduced: p binds tighter than q, or both are of one left-associative level.
LM(n) and RM(n) are the smallest left power on the left spine and the smallest
right power on the right spine; the powers are those of the code's own table,
which is evaluated from its source and compared with the levels of Nix."""
import z3
from .vals import *
from .exec import Exec, State
from . import spec_parser as P
from .spec_parser import PV, off, lo, hi, nkind, isk, T, ParseFn, App

P7 = ("P07",)
INF = 1000000
LM = z3.Function("ops.leftmost", I, I)
RM = z3.Function("ops.rightmost", I, I)
opkind = z3.Function("F!nixf::Op.OpKind", I, I)

# levels of the Nix language, loosest first; L, R, N: associativity
LEVEL = {"op_impl": (1, "R"), "op_or": (2, "L"), "op_and": (3, "L"), "op_eq": (4, "N"), "op_neq": (4, "N"),
         "op_lt": (5, "N"), "op_le": (5, "N"), "op_ge": (5, "N"), "op_gt": (5, "N"), "op_update": (6, "R"),
         "op_add": (8, "L"), "op_negate": (8, "L"), "op_mul": (9, "L"), "op_div": (9, "L"), "op_concat": (10, "R")}
PIPES = ("op_pipe_from", "op_pipe_into")        # looser than all others; among themselves not decided here
PREFIX = {"op_not": 7, "op_negate": 12}
HAS = 11
OPNODES = ("ExprBinOp", "ExprUnaryOp", "ExprOpHasAttr")
ERRORS = ("DK_Expected", "DK_KeywordOrIsNotBinaryOp")


def table(ex):
    """twice the binding powers, evaluated from the code"""
    if hasattr(ex.db, "optable"):
        return ex.db.optable
    tk = ex.db.enums["nixf::tok::TokenKind"]
    names = [n[4:] for n in tk if n.startswith("tok_op_") and n != "tok_op_not"]
    odd = [n for n in names if n not in LEVEL and n not in PIPES]
    if odd:
        raise Unsupported("operators Nix's table does not know: %s" % ", ".join(odd))
    bp = [f for f in ex.db.functions.values() if f.get("body") is not None and "ParseOp" in (f.get("file") or "") and len(f["params"]) == 1 and f["params"][0]["t"].k == "enum"]
    pair = [f for f in bp if getattr(f["ret"], "q", "") == "std::pair"]
    one = [f for f in bp if getattr(f["ret"], "k", "") == "int"]
    if len(pair) != 1 or len(one) != 1:
        raise Unsupported("the functions giving binding powers are not recognised")

    def run(f, n):
        sub = Exec(ex.db, {}, ex.models, ex.spec)
        sub.curfn, sub.topctx = ex.curfn, None
        r = [v for k, v, s in sub.run_fn(f, None, [iv(tk["tok_" + n])], State())]
        if len(r) != 1:
            raise Unsupported("binding power of " + n)
        return r[0]

    def num(x):
        x = simp(x)
        if not is_const_int(x):
            raise Unsupported("a binding power is not a constant")
        return ival(x)
    t = {}
    for n in names:
        v = run(pair[0], n)
        t[n] = tuple(2 * num(v.f[k]) for k in ("first", "second"))
    u = {n: 2 * num(run(one[0], n)) for n in PREFIX}
    ex.db.optable = (t, u)
    return ex.db.optable


def lbp(ex, k):
    tk, (t, u) = ex.db.enums["nixf::tok::TokenKind"], table(ex)
    r = iv(INF)
    for n, (a, b) in t.items():
        r = z3.If(k == tk["tok_" + n], iv(a), r)
    return simp(r)


def rbp(ex, k):
    tk, (t, u) = ex.db.enums["nixf::tok::TokenKind"], table(ex)
    r = iv(t["op_or"][1])         # 'or' in the place of '||', a diagnosed mistake
    for n, (a, b) in t.items():
        r = z3.If(k == tk["tok_" + n], iv(b), r)
    return simp(r)


def ubp(ex, k):
    tk, (t, u) = ex.db.enums["nixf::tok::TokenKind"], table(ex)
    return simp(z3.If(k == tk["tok_op_not"], iv(u["op_not"]), iv(u["op_negate"])))


def hasbp(ex):
    """'?' is taken below everything but a prefix minus"""
    t, u = table(ex)
    return max([b for a, b in t.values()] + [u["op_not"]]) + 1


def binop(ex, k):
    return isk(ex, k, list(table(ex)[0]))


def grouped(ex):
    """the code's powers against the levels: (name, holds)"""
    t, u = table(ex)
    lv = dict(LEVEL, **{n: (0, None) for n in PIPES if n in t})
    out = []
    for p in t:
        ok = True
        for q in t:
            (lp, ap), (lq, _) = lv[p], lv[q]
            r, l = t[p][1], t[q][0]
            if lp == lq == 0:
                continue
            ok &= r < l if (lq > lp or (lq == lp and ap == "R")) else r > l if (lq < lp or ap == "L") else r == l
        out.append(("operators after a binary %s are grouped as in Nix" % p[3:], ok))
    for p, lp in PREFIX.items():
        out.append(("operators after a prefix %s are grouped as in Nix" % p[3:], all((u[p] < t[q][0]) if lv[q][0] > lp else (u[p] > t[q][0]) for q in t)))
    out.append(("'?' binds tighter than everything but a prefix minus", hasbp(ex) < u["op_negate"]))
    out.append(("powers are small", all(0 < x < INF for ab in list(t.values()) + [(x,) for x in u.values()] for x in ab)))
    return out


def looked(ex, p, power):
    """the token looked ahead to does not belong to the operand"""
    return z3.And(z3.Implies(binop(ex, p.k(0)), power > lbp(ex, p.k(0))), z3.Implies(p.k(0) == T(ex, "question")[0], power > hasbp(ex)))


class OpsSpec(P.ParserSpec):
    def start(self, ex, st):
        P.ParserSpec.start(self, ex, st)
        ex.err0, ex.na0 = ex.const("err", I), ex.const("na", I)
        st.ghost["$err"], st.ghost["$na"] = ex.err0, ex.na0

    def called(self, c):
        for g in ("$err", "$na"):
            n = c.ex.const(g[1:], I)
            if c.old is not None:
                c.st.assume(n >= c.old.ghost[g])
            c.st.ghost[g] = n

    def grown(self, ex, st):
        return st.ghost["$err"] > ex.err0

    def emitted(self, ex, st, kind, r, line):
        P.ParserSpec.emitted(self, ex, st, kind, r, line)
        kd = ex.db.enums["nixf::Diagnostic::DiagnosticKind"]
        na = simp(kind == kd["DK_OperatorNotAssociative"])
        er = simp(z3.Or(*[kind == kd[k] for k in ERRORS]))
        st.ghost["$err"] = simp(z3.If(er, st.ghost["$err"] + 1, st.ghost["$err"]))
        if z3.is_false(na):
            return
        st.ghost["$na"] = simp(z3.If(na, st.ghost["$na"] + 1, st.ghost["$na"]))
        p = self.pview(ex, st)
        if p is None or ex.topctx.contract.q != OpBP.q:
            ex.ob(st, z3.Not(na), "a chain of non-associative operators is reported by the operator parser only", line, P7)
            return
        x = ex.topctx.oldx
        f = z3.And(p.len > 0, binop(ex, p.k(0)), x == lbp(ex, p.k(0)), off(r.f["LCur"]) == p.l(0), off(r.f["RCur"]) == p.r(0))
        g = z3.And(p.has, binop(ex, p.ltk), x == lbp(ex, p.ltk), off(r.f["LCur"]) == off(p.ltl), off(r.f["RCur"]) == off(p.ltr))
        ex.ob(st, z3.Implies(na, z3.Or(f, g)), "a non-associative operator is reported where it repeats its level", line, P7)

    def on_alloc(self, ex, Ty, v, ref, st):
        P.ParserSpec.on_alloc(self, ex, Ty, v, ref, st)
        if not isinstance(v, Rec) or "Range" not in v.f or "Kind" not in v.f:
            return
        cn = Ty.n.split("::")[-1]
        what = "new %s: " % cn
        if cn == "Op":
            p = self.pview(ex, st)
            if p is None:
                return
            r, k = v.f["Range"], v.f["OpKind"]
            a, b = off(r.f["LCur"]), off(r.f["RCur"])
            st.assume(opkind(ref) == k)
            ex.ob(st, z3.Or(z3.And(p.has, k == p.ltk, a == off(p.ltl), b == off(p.ltr)), z3.And(p.len > 0, k == p.k(0), a == p.l(0), b == p.r(0))), what + "it is the token read", None, P7)
            return
        if cn not in OPNODES:
            st.assume(z3.And(LM(ref) == INF, RM(ref) == INF))
            return
        o = v.f["O"]
        k = opkind(o)
        grown = self.grown(ex, st)
        if cn == "ExprBinOp":
            l, r = v.f["LHS"], v.f["RHS"]
            word = k == T(ex, "kw_or")[0]
            ex.ob(st, z3.Or(binop(ex, k), word), what + "its operator is a binary one", None, P7)
            ex.ob(st, z3.And(l > 0, r > 0, hi(l) <= lo(o), hi(o) <= lo(r)), what + "operand, operator, operand", None, P7)
            ex.ob(st, z3.Or(grown, RM(l) > lbp(ex, k)), what + "nothing in the left operand binds looser", None, P7)
            ex.ob(st, LM(r) >= rbp(ex, k), what + "nothing in the right operand binds looser", None, P7)
            ex.ob(st, z3.Or(LM(r) != rbp(ex, k), st.ghost["$na"] > ex.na0), what + "a chain of non-associative operators was reported", None, P7)
            lmin, rmin = z3.If(LM(l) < lbp(ex, k), LM(l), lbp(ex, k)), z3.If(RM(r) < rbp(ex, k), RM(r), rbp(ex, k))
        elif cn == "ExprUnaryOp":
            e = v.f["E"]
            ex.ob(st, isk(ex, k, list(PREFIX)), what + "its operator is a prefix", None, P7)
            ex.ob(st, z3.Implies(e != 0, z3.And(hi(o) <= lo(e), LM(e) >= ubp(ex, k))), what + "nothing in the operand binds looser", None, P7)
            ex.ob(st, z3.Or(e != 0, grown), what + "a missing operand was reported", None, P7)
            lmin, rmin = iv(INF), z3.If(z3.And(e != 0, RM(e) < ubp(ex, k)), RM(e), ubp(ex, k))
        else:
            e = v.f["E"]
            ex.ob(st, k == T(ex, "question")[0], what + "its operator is '?'", None, P7)
            ex.ob(st, z3.And(e > 0, hi(e) <= lo(o)), what + "operand, operator", None, P7)
            ex.ob(st, z3.Or(grown, RM(e) > hasbp(ex)), what + "nothing in the operand binds looser", None, P7)
            h = iv(hasbp(ex))
            lmin, rmin = z3.If(LM(e) < h, LM(e), h), iv(INF)
        st.assume(z3.And(LM(ref) == lmin, RM(ref) == rmin))

    def loop_candidates(self, ex, s, entry, mod, roots):
        out = P.ParserSpec.loop_candidates(self, ex, s, entry, mod, roots)
        if self.pview(ex, entry) is None:
            return out
        for g in ("$err", "$na"):
            out.append(("%s only grows" % g, lambda st, g=g: st.ghost[g] >= entry.ghost[g]))
        if ex.topctx.contract.q != OpBP.q:
            return out
        pv = lambda st: self.pview(ex, st)
        x = ex.topctx.oldx
        for r in sorted({r for r, _ in mod if r not in ("heap", "ghost")}, key=str):
            v0 = entry.store.get(r)
            if not (z3.is_expr(v0) and v0.sort() == I) or ex.locname.get(r) == "$idx":
                continue
            nm = ex.locname.get(r) or "v"
            out.append(("%s: every operator on the left is taken" % nm, lambda st, r=r: LM(st.store[r]) >= x))
            out.append(("%s: a repeated level is reported" % nm, lambda st, r=r: z3.Implies(z3.And(x > 0, LM(st.store[r]) == x), st.ghost["$na"] > ex.na0)))
            out.append(("%s: the next operator ends what is on the right" % nm, lambda st, r=r: z3.Or(self.grown(ex, st), RM(st.store[r]) == INF, z3.And(pv(st).len > 0, looked(ex, pv(st), RM(st.store[r]))))))
        return out


def plain(ex, n):
    """by definition: what is no operator has no operators on its spines"""
    K = ex.db.enums["nixf::Node::NodeKind"]
    return z3.Implies(z3.Or(n == 0, z3.And(*[nkind(n) != K["NK_" + o] for o in OPNODES])), z3.And(LM(n) == INF, RM(n) == INF))


class NotOp:
    def ensures(self, c):
        K = c.ex.db.enums["nixf::Node::NodeKind"]
        if c.assuming:
            c.st.assume(plain(c.ex, c.ret))
        return super().ensures(c) + [("operands are no operators", z3.Or(c.ret == 0, z3.And(*[nkind(c.ret) != K["NK_" + o] for o in OPNODES])), P7)]


class Operand(NotOp, ParseFn):
    pass


class OperandApp(NotOp, App):
    pass


class OpBP(ParseFn):
    q = "nixf::Parser::parseExprOpBP"

    def setup(self, c):
        ParseFn.setup(self, c)
        c.oldx = 2 * c.arg(0)
        for n, ok in grouped(c.ex):
            c.ex.ob(c.st, z3.BoolVal(bool(ok)), n, None, P7)

    def requires(self, c):
        p, x, ex = self.pv(c), 2 * c.arg(0), c.ex
        return ParseFn.requires(self, c) + [("the power is that of the operator just read", z3.Or(x == 0, z3.And(p.has, z3.Or(
            z3.And(z3.Or(binop(ex, p.ltk), p.ltk == T(ex, "kw_or")[0]), x == rbp(ex, p.ltk)), z3.And(isk(ex, p.ltk, list(PREFIX)), x == ubp(ex, p.ltk))))), P7)]

    def ensures(self, c):
        p, x, ex, n = self.pv(c), 2 * c.oldarg(0), c.ex, c.ret
        g = lambda k: c.st.ghost[k] > c.old.ghost[k]
        return ParseFn.ensures(self, c) + [
            ("every operator on the left binds tight enough", z3.Implies(n != 0, LM(n) >= x), P7),
            ("a repeated non-associative level is reported", z3.Implies(z3.And(n != 0, x > 0, LM(n) == x), g("$na")), P7),
            ("the operand ends where a looser operator follows", z3.Implies(n != 0, z3.And(p.len > 0, looked(ex, p, x))), P7),
            ("nothing on its right is left to the operator that follows", z3.Implies(n != 0, z3.Or(g("$err"), looked(ex, p, RM(n)))), P7)]


OPERANDS = [OperandApp("parseExprApp", 7), Operand("parseExprSelect", 6), Operand("parseExprSimple", 5)]
OWN = OPERANDS + [OpBP("parseExprOpBP", 9)]
FNS = [c.q for c in OWN] + ["nixf::Parser::parseExpr"]
SPEC, MODELS = OpsSpec, P.ParserModels


def contracts():
    cs = dict(P.contracts())
    cs.update({c.q: c for c in OWN})
    return cs


SPECFUNS = []
