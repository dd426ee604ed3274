"""Contracts for what reaches the editor (nixd/lib/Controller/Convert.cpp)."""
import z3
from .vals import *
from .exec import Contract
from .spec_text import TextSpec, TextModels, OffsetToPosition, parts, zmin, nline, len16, bol
from . import spec_text

K = z3.Int("K!cnv")


class ConvSpec(TextSpec):
    def loop_candidates(self, ex, s, entry, mod, roots):
        out = TextSpec.loop_candidates(self, ex, s, entry, mod, roots)
        vecs = [(r, v) for r, v in entry.store.items() if isinstance(v, Vec)]
        src = [(r, v) for r, v in vecs if not any(k[0] == r for k in mod) and list(v.data)]
        dst = [(r, v) for r, v in vecs if any(k[0] == r for k in mod)]
        idxs = [k for k in mod if z3.is_expr(entry.store.get(k[0])) and k[1] == "" and entry.store[k[0]].sort() == I]
        for rs, vs in src:
            for rd, vd in dst:
                for k in idxs:
                    def inv(st, rs=rs, rd=rd, k=k):
                        a, b, i = st.store[rs], st.store[rd], ex.leaf_get(st, k)
                        da, dd = next(iter(a.data.values())), next(iter(b.data.values()), None)
                        if dd is None:
                            return b.len == i
                        return z3.And(b.len == i, z3.Implies(z3.And(0 <= K, K < i), tagmap(ex, da[K], dd[K])))
                    out.append(("one tag per tag up to %s" % ex.leafname(k), inv))
        return out


def tagmap(ex, a, b):
    E = ex.db.enums
    n, l = E["nixf::DiagnosticTag"], E["lspserver::DiagnosticTag"]
    return z3.And(z3.Implies(a == n["Faded"], b == l["Unnecessary"]), z3.Implies(a == n["Striked"], b == l["Deprecated"]))


def table():
    """{kind: severity} of the table the generated code is made from"""
    import os, runpy
    from . import work as W
    return {"DK_" + d["cname"]: d["severity"] for d in runpy.run_path(os.path.join(W.REPO, "libnixf/src/Basic/diagnostic.py"))["diagnostics"]}


sevf = z3.Function("severity_of", I, I)


def known(c):
    E = c.ex.db.enums["nixf::Diagnostic::DiagnosticKind"]
    return [("a kind of diagnostic", z3.Or(*[c.arg(0) == E[k] for k in table()]), ("safety",))]


class KindSeverity(Contract):
    q = "nixf::Diagnostic::severity"

    def requires(self, c):
        return known(c)

    def ensures(self, c):
        E = c.ex.db.enums["nixf::Diagnostic::DiagnosticKind"]
        S = c.ex.db.enums["nixf::Diagnostic::Severity"]
        k = c.oldarg(0)
        out = [("kinds declared %s are" % s, z3.And(*[z3.Implies(k == E[n], c.ret == S["DS_" + s]) for n, x in table().items() if x == s]), ("P25",)) for s in sorted(set(table().values()))]
        if c.assuming:      # callers must deal with every severity, also one no kind has today
            out = [("one value per kind", c.ret == sevf(k)), ("a severity", z3.Or(*[c.ret == v for v in S.values()]))]
        return out


class Severity(Contract):
    q = "nixd::getLSPSeverity"

    def requires(self, c):
        return known(c)

    def ensures(self, c):
        S = c.ex.db.enums["nixf::Diagnostic::Severity"]
        num = {"DS_Fatal": 1, "DS_Error": 1, "DS_Warning": 2, "DS_Info": 3, "DS_Hint": 4}
        return [("%s becomes %d" % (s, v), z3.Implies(sevf(c.oldarg(0)) == S[s], c.ret == v), ("P25",)) for s, v in num.items()]


class Tags(Contract):
    q = "nixd::toLSPTags"

    def requires(self, c):
        v = c.arg(0)
        d = next(iter(v.data.values()))
        x = z3.Int("tag!any")
        E = c.ex.db.enums["nixf::DiagnosticTag"]
        return [("tags are Faded or Striked", z3.ForAll([x], z3.Or(*[d[x] == n for n in E.values()]), patterns=[d[x]]), ("safety",))]

    def ensures(self, c):
        v = c.oldarg(0)
        r = c.ret
        d, o = next(iter(v.data.values())), next(iter(r.data.values()))
        return [("as many tags as before", r.len == v.len, ("P25",)),
                ("faded becomes unnecessary, struck-through deprecated, in order", c.forall(K, z3.Implies(z3.And(0 <= K, K < v.len), tagmap(c.ex, d[K], o[K])), o[K]), ("P25",))]


def place(c, code, off, pos):
    t, a, e = parts(c.ex, code)
    o = a + zmin(off, e - a)
    return z3.And(pos.f["line"] == nline(t, a, o), pos.f["character"] == len16(t, bol(t, a, o), o))


class ToPosition(Contract):
    q = "nixd::toLSPPosition"

    def ensures(self, c):
        return [("line feeds before, and UTF-16 units from the start of the line", place(c, c.oldarg(0), c.ex.load(c.path(c.args[1], "Offset"), c.old), c.ret), ("P25",))]


class ToRange(Contract):
    q = "nixd::toLSPRange"

    def ensures(self, c):
        off = lambda p: c.ex.load(c.path(c.args[1], p), c.old)
        return [("the start of the range", place(c, c.oldarg(0), off("LCur.Offset"), c.ret.f["start"]), ("P25",)),
                ("the end of the range", place(c, c.oldarg(0), off("RCur.Offset"), c.ret.f["end"]), ("P25",))]


CONTRACTS = [KindSeverity(), Severity(), Tags(), ToPosition(), ToRange(), OffsetToPosition()]
FNS = ["nixf::Diagnostic::severity"] + ["nixd::" + f for f in ("getLSPSeverity", "toLSPTags", "toLSPPosition", "toLSPRange")]


def contracts():
    return {c.q: c for c in CONTRACTS}


SPECFUNS = spec_text.SPECFUNS


def lemmas():
    return []


SPEC, MODELS = ConvSpec, TextModels
