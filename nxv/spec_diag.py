"""Contracts for the rendering of diagnostics (libnixf/src/Basic/Diagnostic.cpp).

A message is a NUL-terminated text; its rendering is the text with every "{}"
replaced by the next argument.  What is required - that there is an argument for
every placeholder - is what the code that reports diagnostics is shown to
establish (the number of arguments of every diagnostic and note is an obligation
of the parser, the semantic actions and the variable analysis)."""
import z3
from .vals import *
from .exec import Contract, BIG
from .driver import Spec
from .lib import Models
from .smt import SpecFun
from .spec_text import MAXTEXT

TEXTS = z3.ArraySort(I, SEQ)
hole = lambda t, p, n: z3.And(t[p] == 123, p + 1 < n, t[p + 1] == 125)
# number of placeholders in t[p,n)
holes = SpecFun("placeholders", [ARR, I, I], I)
holes.body = lambda t, p, n: [holes(t, p, n) >= 0, holes(t, p, n) == z3.If(p >= n, 0, z3.If(hole(t, p, n), 1 + holes(t, p + 2, n), holes(t, p + 1, n)))]
# t[p,n) with the arguments from the k-th on filled in
render = SpecFun("rendering", [ARR, I, I, TEXTS, I], SEQ)
render.body = lambda t, p, n, a, k: [z3.If(p >= n, render(t, p, n, a, k) == z3.Empty(SEQ), z3.If(hole(t, p, n), render(t, p, n, a, k) == z3.Concat(a[k], render(t, p + 2, n, a, k + 1)),
                                                                                          render(t, p, n, a, k) == z3.Concat(z3.Unit(t[p]), render(t, p + 1, n, a, k))))]
SPECFUNS = [holes]
STREAM = ("std::basic_stringstream", "std::basic_ostringstream")
TAG = ("P14",)
MSG, MLEN = z3.Function("message_of", I, ARR), z3.Function("message_len", I, I)


class DiagModels(Models):
    def construct(self, ex, e, T, st):
        if T.q in STREAM and not e.get("args"):
            return [(Rec(T.q, {"text": Str.seq(z3.Empty(SEQ))}), st)]
        return Models.construct(self, ex, e, T, st)

    def stream(self, ex, o, st):
        v = ex.load(o, st) if isinstance(o, LV) else None
        return v if isinstance(v, Rec) and v.cls in STREAM else None

    def free(self, ex, e, st, q, name):
        if name == "operator<<" and len(e["args"]) == 2:
            out = []
            for av, s in ex.args_for(e, st):
                o, x = av[0], self.val(ex, av[1], s)
                if self.stream(ex, o, s) is None:
                    return None
                if z3.is_expr(x) and x.sort() == I:
                    x = z3.Unit(x)
                elif isinstance(x, Str):
                    x = ex.as_seq(x)
                elif not (z3.is_expr(x) and x.sort() == SEQ):
                    return None
                f = o.field("text")
                ex.store(f, Str.seq(simp(z3.Concat(ex.as_seq(ex.load(f, s)), x))), s)
                out.append((o, s))
            return out
        return Models.free(self, ex, e, st, q, name)

    def extra_method(self, ex, e, st, q, name):
        if q == "nixf::PartialDiagnostic" and name == "message" and not e["args"]:
            # virtual: the text of the diagnostic's own kind, whatever it is
            return [(Str(("arr", MSG(o.ref)), iv(0), simp(MLEN(o.ref) + 1)), s) for o, s in ex.obj_lv(e["obj"], e.get("arrow"), st, e.get("line"))]
        if q in STREAM and name == "str" and not e["args"]:
            return [(ex.load(o.field("text"), s), s) for o, s in ex.obj_lv(e["obj"], e.get("arrow"), st, e.get("line"))]
        return Models.extra_method(self, ex, e, st, q, name)


class DiagSpec(Spec):
    assumptions = ["a message is shorter than 2^31 bytes and ends with a NUL, and has none before (C strings)"]

    def build_hook(self, ex, T, mk, path, st):
        if T.k == "ptr" and T.to is not None and T.to.k == "char":
            t, n = mk(path, ARR), mk(path + ".len", I)
            if st is not None:
                i = z3.Int("nul_i")
                st.assume(z3.And(n >= 0, n < MAXTEXT, t[n] == 0, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), t[i] != 0), patterns=[t[i]])))
            return Str(("arr", t), iv(0), simp(n + 1))         # with the NUL
        return Spec.build_hook(self, ex, T, mk, path, st)

    def loop_candidates(self, ex, s, entry, mod, roots):
        c = ex.topctx
        if c is None or not isinstance(c.contract, Format):
            return []
        t, n, a, ln = c.contract.look(c)
        out = []
        el = ex.state_leaves(entry, roots)
        ints = sorted((k for k in mod if k in el and z3.is_expr(el[k]) and el[k].sort() == I and k[0] not in ("heap", "ghost")), key=str)
        offs = [k for k in ints if str(k[1]).endswith("$off")]
        cnts = [k for k in ints if not str(k[1]).endswith("$off") and not str(k[1]).endswith("$len")]
        streams = [r for r, v in entry.store.items() if isinstance(v, Rec) and v.cls in STREAM]
        for o in offs:
            pos = lambda st, o=o: ex.leaf_get(st, o)
            text = lambda st, o=o: z3.And(pos(st, o) + st.store[o[0]].len == n + 1)
            out.append(("%s inside the message" % ex.leafname(o), lambda st, pos=pos, text=text: z3.And(0 <= pos(st), pos(st) <= n, text(st))))
            for k in cnts:
                x = lambda st, k=k: ex.leaf_get(st, k)
                out.append(("%s: placeholders before %s" % (ex.leafname(k), ex.leafname(o)), lambda st, x=x, pos=pos: z3.And(x(st) >= 0, x(st) + holes(t, pos(st), n) == holes(t, 0, n))))
                for r in streams:
                    out.append(("what is left after %s completes the rendering (%s)" % (ex.leafname(o), ex.leafname(k)), lambda st, r=r, x=x, pos=pos: z3.Concat(ex.as_seq(st.store[r].f["text"]), render(t, pos(st), n, a, x(st))) == render(t, iv(0), n, a, iv(0))))
        return out


class Format(Contract):
    q = "(anonymous namespace)::simpleFormat"

    def look(self, c):
        m = c.args[0]
        a = c.ex.load(c.args[1], c.st) if isinstance(c.args[1], (LV, HLV)) else c.args[1]
        return m.base[1], simp(m.len - 1), a.data[""], a.len

    def requires(self, c):
        t, n, a, ln = self.look(c)
        return [("there is an argument for every placeholder", z3.And(holes(t, iv(0), n) == ln), TAG)]

    def ensures(self, c):
        t, n, a, ln = self.look(c)
        return [("the message with the arguments filled in", c.ex.as_seq(c.ret) == render(t, iv(0), n, a, iv(0)), TAG)]


class FormatSelf(Contract):
    q = "nixf::PartialDiagnostic::format"

    def look(self, c):
        f = [x for x in c.ex.db.records[c.this.cls]["fields"] if x["name"] == "Args"]
        a = c.ex.load(HLV(c.this.ref, c.this.cls, c.this.path + ("Args",), f[0]["t"]), c.st)
        return MSG(c.this.ref), MLEN(c.this.ref), a.data[""], a.len

    requires = Format.requires

    def setup(self, c):
        t, n = MSG(c.this.ref), MLEN(c.this.ref)
        i = z3.Int("nul_i")
        c.st.assume(z3.And(n >= 0, n < MAXTEXT, t[n] == 0, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), t[i] != 0), patterns=[t[i]])))

    def ensures(self, c):
        t, n, a, ln = self.look(c)
        return [("its own message with its own arguments filled in", c.ex.as_seq(c.ret) == render(t, iv(0), n, a, iv(0)), TAG)]


def contracts():
    cs = [Format(), FormatSelf()]
    return {c.q: c for c in cs}


def lemmas():
    return []


SPEC, MODELS = DiagSpec, DiagModels
