"""Model of Diagnostic/Note/Fix objects as seen by code that emits them.

An emitted diagnostic is tracked per path: its kind, its number of arguments,
and obligations that its ranges are well-formed cursors inside the source."""
import z3
from .vals import *
from .driver import Spec
from . import smt

PD = ("nixf::Diagnostic", "nixf::PartialDiagnostic", "nixf::Note", "nixf::Fix")


class DiagMixin(Spec):
    kinds_of_interest = ()      # diagnostic kinds counted in ghost state
    range_tags = ("P14",)

    def start(self, ex, st):
        st.ghost["$dl"] = ()
        for k in self.kinds_of_interest:
            st.ghost["diag:" + k] = iv(0)

    def wf_cur(self, ex, st, c):
        raise NotImplementedError

    def check_range(self, ex, st, r, line, what):
        l, rr = r.f["LCur"], r.f["RCur"]
        ex.ob(st, z3.And(self.wf_cur(ex, st, l), self.wf_cur(ex, st, rr)), "%s range has consistent cursors in the source" % what, line, ("P14", "P02"))
        ex.ob(st, l.f["Offset"] <= rr.f["Offset"], "%s range is not reversed" % what, line, ("P14",))

    def newdiag(self, ex, st, cls, kind):
        loc = ex.newloc(st, Rec(cls, {"Kind": kind, "nargs": iv(0)}), None, "$diag")
        st.ghost["$dl"] = st.ghost.get("$dl", ()) + (loc,)
        return loc

    def diags_vec(self, e):
        o = e.get("obj")
        if o is None:
            return False
        t = o["t"]
        if t.k in ("ref", "ptr"):
            t = t.to
        return t is not None and t.q == "std::vector" and t.targs and t.targs[0].q == "nixf::Diagnostic"

    def build_hook(self, ex, T, mk, path, st):
        if T.k in ("ref", "rref") and T.to is not None and T.to.q == "std::vector" and T.to.targs and T.to.targs[0].q == "nixf::Diagnostic":
            if st is None:
                return mk(path, I)
            return ex.newloc(st, Rec("$diags", {}), None, "Diags")
        if T.k == "rec" and T.q == "std::vector" and T.targs and T.targs[0].q == "nixf::Diagnostic":
            return Rec("$diags", {})
        return None

    def call_hook(self, ex, e, st):
        name = e.get("name")
        if self.diags_vec(e):
            if name in ("emplace_back", "push_back"):
                return self.emit(ex, e, st)
            if name in ("size", "empty"):
                return [(ex.const("ndiags", I if name == "size" else B), st)]
            return None
        o = e.get("obj")
        if o is not None:
            t = o["t"].to if o["t"].k in ("ptr", "ref") else o["t"]
            if t is not None and t.k == "rec" and t.q in PD:
                if name == "note":
                    return self.seq_call(ex, e, st, self.do_note)
                if name == "fix":
                    return self.seq_call(ex, e, st, self.do_fix)
                if name == "edit":
                    return self.seq_call(ex, e, st, self.do_edit)
                if name == "operator<<":
                    return self.seq_call(ex, e, st, self.do_arg)
                if name == "tag":
                    return self.seq_call(ex, e, st, lambda ex, s, o, av, e: [(UNIT, s)])
        return None

    def seq_call(self, ex, e, st, f):
        out = []
        for o, s in ex.obj_lv(e["obj"], e.get("arrow"), st, e.get("line")):
            for av, s2 in ex.args_for(e, s):
                if s2.dead:
                    continue
                out += f(ex, s2, o, av, e)
        return out

    def _v(self, ex, a, st):
        return ex.load(a, st) if isinstance(a, (LV, HLV)) else a

    def emit(self, ex, e, st):
        out = []
        for o, s in ex.obj_lv(e["obj"], e.get("arrow"), st, e.get("line")):
            for av, s2 in ex.args_for(e, s):
                if s2.dead:
                    continue
                vs = [self._v(ex, a, s2) for a in av]
                if len(vs) != 2:
                    raise Unsupported("diagnostic emission form")
                self.check_range(ex, s2, vs[1], e.get("line"), "diagnostic")
                k = simp(vs[0])
                self.emitted(ex, s2, k, vs[1], e.get("line"))
                if is_const_int(k):
                    nm = self.kind_name(ex, ival(k))
                    if "diag:" + nm in s2.ghost:
                        s2.ghost["diag:" + nm] = simp(s2.ghost["diag:" + nm] + 1)
                out.append((self.newdiag(ex, s2, "nixf::Diagnostic", k), s2))
        return out

    def emitted(self, ex, st, kind, r, line):
        pass

    def do_note(self, ex, st, o, av, e):
        vs = [self._v(ex, a, st) for a in av]
        self.check_range(ex, st, vs[1], e.get("line"), "note")
        return [(self.newdiag(ex, st, "nixf::Note", simp(vs[0])), st)]

    def do_fix(self, ex, st, o, av, e):
        return [(ex.newloc(st, Rec("nixf::Fix", {}), None, "$fix"), st)]

    def do_edit(self, ex, st, o, av, e):
        t = self._v(ex, av[0], st)
        self.check_range(ex, st, t.f["OldRange"], e.get("line"), "fix edit")
        return [(o, st)]

    def do_arg(self, ex, st, o, av, e):
        v = ex.load(o, st)
        ex.store(o, v.with_("nargs", simp(v.f["nargs"] + 1)), st)
        return [(o, st)]

    def kind_name(self, ex, k, enum="nixf::Diagnostic::DiagnosticKind"):
        for n, v in ex.db.enums.get(enum, {}).items():
            if v == k:
                return n
        return "?%d" % k

    placeholders = {}    # ("nixf::Diagnostic"|"nixf::Note", kind int) -> count

    def path_end(self, ex, st, where):
        if where != "return":
            return
        for loc in st.ghost.get("$dl", ()):
            v = st.store[loc.root]
            k = v.f["Kind"]
            if not is_const_int(k):
                n = iv(-1)
                for (c, kk), cnt in self.placeholders.items():
                    if c == v.cls:
                        n = z3.If(k == kk, iv(cnt), n)
                nm = "a kind chosen at run time"
            else:
                n = iv(self.placeholders.get((v.cls, ival(k)), -1))
                nm = self.kind_name(ex, ival(k), "nixf::Diagnostic::DiagnosticKind" if v.cls == "nixf::Diagnostic" else "nixf::Note::NoteKind")
            ex.ob(st, v.f["nargs"] == n, "%s %s carries as many arguments as its message has placeholders" % (v.cls.split("::")[-1], nm), None, ("P14",), assume=False)
