"""Contracts for reading the message stream (nixd/lspserver/src/Connection.cpp).

Ghost state: what the other side sends is the byte array `inp`, of which `lim`
bytes arrive before the end; `pos` counts the bytes consumed.  A read returns any
number of the bytes that are there, or fails; a wait may time out, be interrupted
or report any condition.  `stop` records that there was a reason to stop reading.
`patience` bounds the waits that bring nothing (the other side answers eventually
or goes away): termination is shown relative to that."""
import z3
from .vals import *
from .exec import Contract, BIG
from .lib import Models
from .spec_text import parts, MAXTEXT
from .spec_uri import UriSpec, UriModels, fst
from .smt import SpecFun

J = z3.Int("J!wire")
NL = 10
EINTR, EAGAIN = 4, 11
CL = b"Content-Length: "
POLLIN, POLLPRI, POLLERR, POLLHUP, POLLNVAL = 1, 2, 8, 16, 32
MAXLEN = (1 << 62)

def white(c):
    return z3.Or(*[c == x for x in b" \t\n\v\f\r"])


# the text between first and last byte that are no white space (library function StringRef::trim): to the end from the right, then from the left
trim_e = SpecFun("trim_e", [ARR, I, I], I)
trim_e.body = lambda t, a, e: [z3.Implies(a <= e, z3.And(trim_e(t, a, e) >= a, trim_e(t, a, e) <= e)), trim_e(t, a, e) == z3.If(e <= a, e, z3.If(white(t[e - 1]), trim_e(t, a, e - 1), e))]
trim_a = SpecFun("trim_a", [ARR, I, I], I)
trim_a.body = lambda t, a, e: [trim_a(t, a, e) >= a, z3.Implies(a <= e, trim_a(t, a, e) <= e), trim_a(t, a, e) == z3.If(a >= e, a, z3.If(white(t[a]), trim_a(t, a + 1, e), a))]
# decimal numbers
digits = SpecFun("digits", [ARR, I, I], B)
digits.body = lambda t, a, e: [digits(t, a, e) == z3.If(e <= a, True, z3.And(t[e - 1] >= 48, t[e - 1] <= 57, digits(t, a, e - 1)))]
num_val = SpecFun("num_val", [ARR, I, I], I)
num_val.body = lambda t, a, e: [num_val(t, a, e) == z3.If(e <= a, 0, num_val(t, a, e - 1) * 10 + t[e - 1] - 48)]


def num_ok(t, a, e):
    return z3.And(a < e, digits(t, a, e), num_val(t, a, e) < (1 << 64), num_val(t, a, e) >= 0)


def trimmed(t, a, e):
    y = trim_e(t, a, e)
    return trim_a(t, a, y), y


# what the library writes for a number
dtxt = z3.Function("decimal", I, ARR)
dlen = z3.Function("decimal_len", I, I)


def is_cl(t, a, e):
    return z3.And(e - a >= len(CL), *[t[a + i] == c for i, c in enumerate(CL)])


def number(t, a, e):
    x, y = trimmed(t, a + len(CL), e)
    return num_ok(t, x, y), num_val(t, x, y)


def blank(t, a, e):
    x, y = trimmed(t, a, e)
    return x >= y


# headers from position p with n as the length seen so far: where the body begins, its length, whether they are well formed
hend = SpecFun("body_at", [ARR, I, I, I], I)
hlen = SpecFun("body_len", [ARR, I, I, I], I)
hok = SpecFun("headers_ok", [ARR, I, I, I], B)


def rec(f, t, p, n, lim, last, bad):
    e = fst(t, p, lim, iv(NL))
    ok, v = number(t, p, e)
    return [f(t, p, n, lim) == z3.If(e >= lim, bad, z3.If(is_cl(t, p, e), z3.If(ok, f(t, e + 1, v, lim), bad), z3.If(blank(t, p, e), last(e, n), f(t, e + 1, n, lim))))]


hend.body = lambda t, p, n, lim: rec(hend, t, p, n, lim, lambda e, n: e + 1, iv(-1))
hlen.body = lambda t, p, n, lim: rec(hlen, t, p, n, lim, lambda e, n: n, iv(-1))
hok.body = lambda t, p, n, lim: rec(hok, t, p, n, lim, lambda e, n: z3.BoolVal(True), z3.BoolVal(False))


# the text of a JSON value, on one line or indented
jtxt = {p: z3.Function("json_text" + p, OPQ, ARR) for p in ("", "_indented")}
jlen = {p: z3.Function("json_len" + p, OPQ, I) for p in ("", "_indented")}


class WireModels(UriModels):
    def write(self, ex, o, x, st, line):
        """x is appended to the stream o: a string under construction, or what is sent"""
        v = ex.load(o, st) if isinstance(o, LV) else None
        if isinstance(v, Rec) and v.cls == "llvm::raw_svector_ostream":
            to = v.f["to"]
            b = ex.load(to, st).arr()
            ex.store(to, self.splice(ex, b, b.len, iv(0), x), st)
            return
        g = st.ghost
        ex.ob(st, g["held"], "output is written under the lock", line, ("P21", "P20"))
        b = self.splice(ex, Str(("arr", g["out"]), iv(0), g["olen"]), g["olen"], iv(0), x)
        g["out"], g["olen"] = b.base[1], b.len

    def m_vector(self, ex, e, st, o, av):
        if isinstance(o, LV) and isinstance(ex.load(o, st), Str):
            return self.m_string(ex, e, st, o, av)
        return UriModels.m_vector(self, ex, e, st, o, av)

    def construct(self, ex, e, T, st):
        if T.q == "llvm::raw_svector_ostream":
            return [(Rec(T.q, {"to": av[0]}), s) for av, s in ex.args_for(e, st)]
        if T.q == "std::lock_guard":
            out = []
            for av, s in ex.args_for(e, st):
                s.ghost["held"] = z3.BoolVal(True)
                out.append((Rec(T.q, {}), s))
            return out
        return UriModels.construct(self, ex, e, T, st)

    def fail(self, ex, st, line, what):
        bad = st.fork()
        bad.trace = (bad.trace, (line, what))
        return bad

    def wait(self, st, n=1):
        st.ghost["patience"] = simp(st.ghost["patience"] - n)
        st.assume(st.ghost["patience"] >= 0)

    def stop(self, st, c=True):
        st.ghost["stop"] = simp(z3.Or(st.ghost["stop"], z3.BoolVal(True) if c is True else c))

    def errno(self, ex, st):
        st.ghost["errno"] = ex.const("errno", I)
        st.assume(z3.And(st.ghost["errno"] > 0, st.ghost["errno"] < 4096))
        return st.ghost["errno"]

    def free(self, ex, e, st, q, name):
        g = lambda s, k: s.ghost[k]
        line = e.get("line")
        if q == "poll":
            out = []
            for av, s in ex.args_for(e, st):
                p = av[0]
                bad = self.fail(ex, s, line, "poll fails")
                er = self.errno(ex, bad)
                self.stop(bad, er != EINTR)
                self.wait(bad)
                out.append((iv(-1), bad))
                r, ev = ex.const("poll", I), ex.const("revents", I)
                s.assume(z3.And(r >= 0, r <= self.val(ex, av[1], s), ev >= 0, ev < 64, (r == 0) == (ev == 0)))
                IN = ev % 2 == 1
                s.ghost["patience"] = z3.If(IN, s.ghost["patience"], s.ghost["patience"] - 1)
                s.assume(s.ghost["patience"] >= 0)
                self.stop(s, z3.And(z3.Not(IN), ev / 8 != 0))
                self.poll_result(ex, p, ev, s)
                out.append((r, s))
            return out
        if q == "read":
            out = []
            for av, s in ex.args_for(e, st):
                n = self.val(ex, av[2], s)
                bad = self.fail(ex, s, line, "read fails")
                er = self.errno(ex, bad)
                self.stop(bad, er != EINTR)
                self.wait(bad)
                out.append((iv(-1), bad))
                eof = self.fail(ex, s, line, "end of input")
                eof.assume(g(eof, "pos") == g(eof, "lim"))
                self.stop(eof)
                out.append((iv(0), eof))
                r = ex.const("got", I)
                s.assume(z3.And(r >= 1, r <= n, g(s, "pos") + r <= g(s, "lim")))
                self.fill(ex, e, av[1], n, r, s)
                s.ghost["pos"] = simp(g(s, "pos") + r)
                out.append((r, s))
            return out
        if q == "kill":
            r = ex.const("kill", I)
            st.assume(z3.And(r >= -1, r <= 0))
            self.stop(st, r < 0)
            return [(r, st)]
        if q == "__errno_location":
            return [(Ptr(ex.newloc(st, st.ghost["errno"], None, "errno")), st)]
        if q == "llvm::formatv":
            out = []
            for av, s in ex.args_for(e, st):
                f = self.tostr(ex, av[0], s).concrete()
                v = self.val(ex, av[1], s) if len(av) == 2 else None
                if f not in (b"{0}", b"{0:2}") or not z3.is_expr(v) or v.sort() != OPQ:
                    return None
                k = "" if f == b"{0}" else "_indented"
                n = jlen[k](v)
                s.assume(z3.And(n >= 0, n < MAXTEXT))
                out.append((Str(("arr", jtxt[k](v)), iv(0), n), s))
            return out
        if q == "llvm::getAsUnsignedInteger":
            out = []
            for av, s in ex.args_for(e, st):
                t, a, end = parts(ex, self.tostr(ex, av[0], s))
                ok, v = num_ok(t, a, end), num_val(t, a, end)
                for b, s2 in ex.branch(ok, s, line):
                    if b:
                        s2.assume(z3.And(v >= 0, v < (1 << 64)))
                        ex.store(av[2], v, s2)
                    out.append((z3.BoolVal(not b), s2))
            return out
        if q in ("lspserver::error", "lspserver::detail::error"):
            st.ghost["err"] = iv(2)
            return [(Rec("llvm::Error", {"fail": z3.BoolVal(True)}), st)]
        if q == "llvm::make_error":
            T = e["t"]
            st.ghost["err"] = iv(1 if "ReadEOF" in str(e.get("fn")) + str(e.get("targs")) else 3)
            return [(Rec("llvm::Error", {"fail": z3.BoolVal(True)}), st)]
        if q == "llvm::json::parse":
            out = []
            for av, s in ex.args_for(e, st):
                t, a, end = parts(ex, self.tostr(ex, av[0], s))
                s.ghost["parsed"] = z3.BoolVal(True)
                s.ghost["ptxt"], s.ghost["poff"], s.ghost["pend"] = t, a, end
                r = ex.fresh(e["t"], "json", s)
                s.ghost["pres"] = r.has
                out.append((r, s))
            return out
        return UriModels.free(self, ex, e, st, q, name)

    def poll_result(self, ex, p, ev, s):
        if isinstance(p, Ptr):
            p = p.lv
        if isinstance(p, It):
            v = ex.load(p.cont, s)
            if not ex.provable(s, v.len == 1):
                raise Unsupported("poll of several descriptors")
            d = dict(v.data)
            d[".revents"] = z3.Store(d[".revents"], p.idx, ev)
            ex.store(p.cont, Vec(v.len, d, v.et, v.q), s)
            return
        if isinstance(p, LV):
            ex.store(p.field("revents"), ev, s)
            return
        raise Unsupported("poll of %r" % (p,))

    def fill(self, ex, e, p, n, r, s):
        """r of at most n bytes at p are replaced by the next bytes of the input"""
        inp, pos = s.ghost["inp"], s.ghost["pos"]
        if isinstance(p, Ptr):
            ex.ob(s, n <= 1, "reading stays in the buffer", e.get("line"), ("safety", "P21"))
            c = inp[pos]
            s.assume(z3.And(c >= -128, c <= 127))
            ex.store(p.lv, c, s)
            return
        if isinstance(p, It) and isinstance(p.cont, LV):
            v = ex.load(p.cont, s)
            ex.ob(s, z3.And(p.idx >= 0, p.idx + n <= v.len), "reading stays in the buffer", e.get("line"), ("safety", "P21"))
            v = v.arr()
            i = z3.Int("rd_i")
            o, b = v.off, v.base[1]
            a = z3.Lambda([i], z3.If(z3.And(i >= o + p.idx, i < o + p.idx + r), inp[pos + i - o - p.idx], b[i]))
            ex.store(p.cont, Str(("arr", a), v.off, v.len), s)
            return
        raise Unsupported("read into %r" % (p,))

    def m_string(self, ex, e, st, o, av):
        n = e["name"]
        if n == "trim" and (not av or isinstance(av[0], Str) and sorted(av[0].concrete() or b"") == sorted(b" \t\n\v\f\r")):
            t, a, end = parts(ex, ex.load(o, st))
            x, y = trimmed(t, a, end)
            st.assume(z3.And(a <= x, x <= y, y <= end))
            return [(Str(("arr", t), x, simp(y - x)), st)]
        if n == "data" and e.get("clsq") != "llvm::StringRef" and not getattr(e["t"].to, "const", False):
            return [(It(o, iv(0)), st)]
        if n == "resize":
            k = self.val(ex, av[0], st)
            v = ex.load(o, st).arr()
            i = z3.Int("rs_i")
            b, off, ln = v.base[1], v.off, v.len
            if ex.provable(st, k <= ln):
                ex.store(o, Str(("arr", b), off, k), st)
            else:
                ex.store(o, Str(("arr", z3.Lambda([i], z3.If(i < off + ln, b[i], 0))), off, k), st)
            return [(UNIT, st)]
        return UriModels.m_string(self, ex, e, st, o, av)

    def extra_method(self, ex, e, st, q, name):
        if q in ("std::atomic", "std::__atomic_base") and name.startswith("operator "):
            c = ex.const("closed", B)
            self.stop(st, c)
            return [(c, st)]
        if q == "llvm::raw_ostream" and name == "operator<<":
            def f(ex, e, s, o, av):
                x = self.val(ex, av[0], s)
                if isinstance(x, Str):
                    x = x.arr()
                elif z3.is_expr(x) and x.sort() == I and e["args"][0]["t"].k != "char":
                    n = dlen(x)
                    s.assume(z3.And(n >= 1, n < 32, digits(dtxt(x), iv(0), n), num_val(dtxt(x), iv(0), n) == x))
                    x = Str(("arr", dtxt(x)), iv(0), n)
                else:
                    return None
                self.write(ex, o, x, s, e.get("line"))
                return [(o, s)]
            return self.run(ex, e, st, f)
        if q == "llvm::raw_ostream" and name == "flush":
            st.ghost["flushed"] = st.ghost["olen"]
            return [(UNIT, st)]
        return UriModels.extra_method(self, ex, e, st, q, name)


class WireSpec(UriSpec):
    arrlit = True
    assumptions = ["read and poll behave as specified by POSIX: a read returns at most the bytes asked for, in order",
                   "waits that bring nothing (time-outs, interruptions) do not go on for ever (only termination depends on it)",
                   "json::parse looks at the given text only"]

    def build_hook(self, ex, T, mk, path, st):
        if T.k == "rec" and (T.q == "llvm::SmallString" or T.q == "llvm::SmallVector" and T.targs[0].k == "char"):
            t, n = mk(path, ARR), mk(path + ".len", I)
            if st is not None:
                st.assume(z3.And(n >= 0, n < MAXTEXT - 2))
            return Str(("arr", t), iv(0), n)
        return UriSpec.build_hook(self, ex, T, mk, path, st)

    def start(self, ex, st):
        g = st.ghost
        g["inp"], g["pos"], g["lim"], g["patience"], g["errno"] = ex.const("inp", ARR), ex.const("pos", I), ex.const("lim", I), ex.const("patience", I), ex.const("errno", I)
        g["out"], g["olen"], g["flushed"], g["held"] = ex.const("out", ARR), ex.const("olen", I), iv(-1), z3.BoolVal(False)
        st.assume(z3.And(g["olen"] >= 0, g["olen"] < MAXLEN))
        g["stop"], g["parsed"], g["pres"], g["err"] = z3.BoolVal(False), z3.BoolVal(False), z3.BoolVal(False), iv(0)
        g["ptxt"], g["poff"], g["pend"] = ex.const("ptxt", ARR), iv(0), iv(0)
        st.assume(z3.And(g["pos"] >= 0, g["pos"] <= g["lim"], g["lim"] < BIG - 4, g["patience"] >= 0))

    def loop_candidates(self, ex, s, entry, mod, roots):
        out = []
        g0 = entry.ghost
        inp, lim = g0["inp"], g0["lim"]
        G = lambda st, k: st.ghost[k]
        out.append(("consumed within the input", lambda st: z3.And(G(st, "pos") >= g0["pos"], G(st, "pos") <= lim)))
        out.append(("patience does not grow", lambda st: z3.And(G(st, "patience") <= g0["patience"], G(st, "patience") >= 0)))
        out.append(("the line has not ended yet", lambda st: fst(inp, G(st, "pos"), lim, iv(NL)) == fst(inp, g0["pos"], lim, iv(NL))))
        el = ex.state_leaves(entry, roots)
        ints = sorted([k for k in mod if k in el and z3.is_expr(el[k]) and el[k].sort() == I and k[0] not in ("heap", "ghost") and not str(k[1]).endswith(("$len", "$off"))], key=str)
        fixed = sorted([k for k in el if k not in mod and z3.is_expr(el[k]) and el[k].sort() == I and k[0] not in ("heap", "ghost") and not str(k[1]).endswith(("$len", "$off"))], key=str)
        for k in fixed:
            out.append(("at most %s consumed" % ex.leafname(k), lambda st, k=k: G(st, "pos") - g0["pos"] <= el[k]))
        for r, v in sorted(entry.store.items()):
            if isinstance(v, Str) and any(k[0] == r for k in mod):
                def inv(st, r=r, v=v, n=False):
                    x = st.store[r].arr()
                    if x is None or v.arr() is None:
                        return None
                    got = v.len + G(st, "pos") - g0["pos"]
                    if n is not False:
                        return z3.And(x.off == 0, z3.Or(x.len == got, z3.And(x.len > got, got < n)))
                    return z3.Implies(z3.And(v.len <= J, J < got), x.base[1][J] == inp[g0["pos"] + J - v.len])
                nm = ex.locname.get(r) or "text"
                out.append(("%s has the bytes consumed" % nm, inv))
                out.append(("%s is as long as what was consumed" % nm, lambda st, f=inv: f(st, n=iv(0))))
                for k in fixed:
                    out.append(("%s is as long as what was consumed, or that is less than %s" % (nm, ex.leafname(k)), lambda st, f=inv, k=k: f(st, n=el[k])))
        for k in ints:
            out.append(("%s counts what was consumed" % ex.leafname(k), lambda st, k=k: ex.leaf_get(st, k) - el[k] == G(st, "pos") - g0["pos"]))
            for nm, f in (("body begins", hend), ("body length", hlen), ("headers", hok)):
                out.append(("%s from here on, with %s" % (nm, ex.leafname(k)), lambda st, k=k, f=f: f(inp, G(st, "pos"), ex.leaf_get(st, k), lim) == f(inp, g0["pos"], el[k], lim)))
        return out

    def measures(self, ex, entry, mod, roots):
        return [("bytes to come and patience", lambda st: st.ghost["lim"] - st.ghost["pos"] + st.ghost["patience"])]


class Wire(Contract):
    ghost_ok = True

    def requires(self, c):
        return []


class ReadLine(Wire):
    q = "lspserver::readLine"

    def modifies(self, c):
        return [c.args[2]]

    def ensures(self, c):
        ex, g, o = c.ex, c.st.ghost, c.old.ghost
        inp, lim, p0 = o["inp"], o["lim"], o["pos"]
        e = fst(inp, p0, lim, iv(NL))
        if c.assuming:
            g["pos"], g["patience"], g["stop"] = ex.const("pos", I), ex.const("patience", I), ex.const("stop", B)
            ex.store(c.args[2], Str(("arr", inp), p0, simp(e - p0)), c.st)       # the same bytes
            return [("ok", z3.And(z3.Implies(c.ret, z3.And(e < lim, g["pos"] == e + 1, g["stop"] == o["stop"])), z3.Implies(z3.Not(c.ret), g["stop"]))),
                    ("what is left", z3.And(g["pos"] >= p0, g["pos"] <= lim, g["patience"] <= o["patience"], g["patience"] >= 0))]
        v = ex.load(c.args[2], c.st).arr()
        return [("the line is consumed with its line feed, and nothing after it", z3.Implies(c.ret, z3.And(e < lim, g["pos"] == e + 1)), ("P21",)),
                ("the line is what was sent", z3.Implies(c.ret, z3.And(v.len == e - p0, z3.Implies(z3.And(0 <= J, J < v.len), v.base[1][v.off + J] == inp[p0 + J]))), ("P21",)),
                ("it gives up only for a reason", z3.Implies(z3.Not(c.ret), g["stop"]), ("P21",)),
                ("only what was sent is consumed", z3.And(g["pos"] >= p0, g["pos"] <= lim, g["patience"] <= o["patience"]), ("P21",))]


class ReadMessage(Wire):
    q = "lspserver::InboundPort::readStandardMessage"

    def modifies(self, c):
        return [c.args[0]]

    def ensures(self, c):
        ex, g, o = c.ex, c.st.ghost, c.old.ghost
        inp, lim, p0 = o["inp"], o["lim"], o["pos"]
        a = hend(inp, p0, iv(0), lim)
        n = hlen(inp, p0, iv(0), lim)
        ok = hok(inp, p0, iv(0), lim)
        t, x, y = g["ptxt"], g["poff"], g["pend"]
        return [("the result is that of parsing the body", c.ret.has == z3.And(g["parsed"], g["pres"]), ("P21",)),
                ("the body has the declared length and is consumed exactly", z3.Implies(g["parsed"], z3.And(ok, y - x == n, g["pos"] == a + n)), ("P21",)),
                ("the body is what was sent", z3.Implies(z3.And(g["parsed"], 0 <= J, J < y - x), t[x + J] == inp[a + J]), ("P21",)),
                ("otherwise the input ended or a header is malformed", z3.Implies(z3.Not(g["parsed"]), z3.Or(z3.And(g["err"] == 1, g["stop"]), z3.And(g["err"] == 2, z3.Not(ok)))), ("P21",))]


class SendMessage(Wire):
    q = "lspserver::OutboundPort::sendMessage"

    def modifies(self, c):
        return [c.path(c.this, "OutputBuffer")]

    def ensures(self, c):
        g, o = c.st.ghost, c.old.ghost
        m = c.oldarg(0)
        pretty = c.oldv("Pretty")
        n = z3.If(pretty, jlen["_indented"](m), jlen[""](m))
        t = z3.If(pretty, jtxt["_indented"](m), jtxt[""](m))
        out, a, L = g["out"], o["olen"], dlen(n)
        b = a + len(CL) + L
        return [("what was sent before stays", z3.Implies(z3.And(0 <= J, J < a), out[J] == o["out"][J]), ("P21",)),
                ("a header with the length of the body in bytes", z3.And(*[out[a + i] == x for i, x in enumerate(CL)], z3.Implies(z3.And(0 <= J, J < L), out[a + len(CL) + J] == dtxt(n)[J])), ("P21",)),
                ("a blank line", z3.And(*[out[b + i] == x for i, x in enumerate(b"\r\n\r\n")]), ("P21",)),
                ("the body", z3.Implies(z3.And(0 <= J, J < n), out[b + 4 + J] == t[J]), ("P21",)),
                ("nothing else, and nothing is held back", z3.And(g["olen"] == b + 4 + n, g["flushed"] == g["olen"]), ("P21",))]


CONTRACTS = [ReadLine(), ReadMessage(), SendMessage()]


def contracts():
    return {c.q: c for c in CONTRACTS}


SPECFUNS = [fst, trim_a, trim_e]


def lemmas():
    t, d = z3.Consts("t d", ARR)
    a, e, p, L, k, n, lim = z3.Ints("a e p L k n lim")
    out = []
    nodig = lambda e: fst(t, a, lim, iv(NL)) == fst(t, e, lim, iv(NL))
    out.append(("a line does not end within a number", ("P21",), [
        ("base", [], nodig(a)),
        ("step", [a <= e, e + 1 <= lim, digits(t, a, e + 1), nodig(e)], nodig(e + 1))]))
    same = lambda k: z3.And(digits(t, a, a + k) == digits(d, 0, k), num_val(t, a, a + k) == num_val(d, 0, k))
    out.append(("a number reads the same wherever it stands", ("P21",), [
        ("base", [], same(iv(0))), ("step", [k >= 0, same(k), t[a + k] == d[k]], same(k + 1))]))
    # a message as sendMessage writes it, at position p of the input
    b = p + len(CL)
    e = b + L
    msg = [p >= 0, L >= 1, n >= 0, n < MAXTEXT, e + 4 + n <= lim] + [t[p + i] == c for i, c in enumerate(CL)] + [t[e + i] == c for i, c in enumerate(b"\r\n\r\n")]
    num = [digits(t, b, e), num_val(t, b, e) == n, t[e - 1] >= 48, t[e - 1] <= 57, t[b] >= 48, t[b] <= 57]
    first = [fst(t, b, lim, iv(NL)) == fst(t, e, lim, iv(NL))]
    l1 = fst(t, p, lim, iv(NL)) == e + 1
    ends = [l1, fst(t, e + 2, lim, iv(NL)) == e + 3]
    trims = [trim_e(t, b, e + 1) == e, trim_a(t, b, e) == b]
    bl = [trim_e(t, e + 2, e + 3) == e + 2, trim_a(t, e + 2, e + 2) == e + 2]
    out.append(("a number's first and last bytes are digits", ("P21",), [
        ("base", [a < k, digits(t, a, k)], z3.And(t[k - 1] >= 48, t[k - 1] <= 57)),
        ("first", [digits(t, a, a + 1)], z3.And(t[a] >= 48, t[a] <= 57)),
        ("prefix", [a < k, digits(t, a, k + 1)], digits(t, a, k))]))
    hint = [fst(t, p + i, lim, iv(NL)) >= p + i for i in range(len(CL) + 1)] + [fst(t, e + i, lim, iv(NL)) >= e + i for i in range(4)]
    out.append(("a message written is read back", ("P21",), [
        ("the header line ends before the blank line", msg + num + first + hint, l1),
        ("the blank line", msg + hint, fst(t, e + 2, lim, iv(NL)) == e + 3),
        ("the number stands between", msg + num, z3.And(*trims)),
        ("the blank line is blank", msg, z3.And(*bl)),
        ("the body begins where it was written", msg + num + ends + trims + bl, hend(t, p, iv(0), lim) == e + 4),
        ("it has the length written", msg + num + ends + trims + bl, hlen(t, p, iv(0), lim) == n),
        ("the headers are well formed", msg + num + ends + trims + bl, hok(t, p, iv(0), lim))]))
    return out


SPEC, MODELS = WireSpec, WireModels
