"""Contracts for dispatching messages and pairing calls with replies
(nixd/lspserver/src/Connection.cpp, LSPServer.cpp).

JSON values are opaque; what the code asks of them (is it an object, its field of
a name, its string, its integer) are functions of the value.  Ghost state records
the calls of handlers, callbacks and of the outgoing port: how many, and the last
one's arguments."""
import z3
from .vals import *
from .exec import Contract, BIG
from .smt import SpecFun
from .spec_wire import WireModels, WireSpec

KQ = z3.Int("K!rpc")
INT = (-0x80000000, 0x7fffffff)
_F = {}


def jf(kind, name, *dom):
    """what the value says about its field of that name"""
    k = (kind, name)
    if k not in _F:
        _F[k] = z3.Function("json_%s_%s" % k, *dom)
    return _F[k]


is_obj = z3.Function("json_is_object", OPQ, B)
is_int, as_int = z3.Function("json_is_int", OPQ, B), z3.Function("json_as_int", OPQ, I)
is_str, as_str = z3.Function("json_is_string", OPQ, B), z3.Function("json_as_string", OPQ, SEQ)
JNULL = z3.Const("json_null", OPQ)
of_str = z3.Function("json_of_string", SEQ, OPQ)
of_int = z3.Function("json_of_int", I, OPQ)


EOF, PARSE = 1, 4
NAMES = ("jsonrpc", "method", "params", "id", "result", "error", "code", "message")


def has(v, n): return jf("has", n, OPQ, B)(v)
def field(v, n): return jf("field", n, OPQ, OPQ)(v)


def seq(s):
    return z3.Concat(*[z3.Unit(iv(x)) for x in s]) if len(s) > 1 else z3.Unit(iv(s[0]))


class RpcModels(WireModels):
    def record(self, st, what, **kw):
        """an event: counted, its arguments kept"""
        g = st.ghost
        g["n:" + what] = simp(g["n:" + what] + 1)
        for k, v in kw.items():
            g[what + ":" + k] = v

    def jval(self, ex, a, st):
        v = self.val(ex, a, st)
        if isinstance(v, JObj):
            return v.close(ex, st)
        return v if z3.is_expr(v) and v.sort() == OPQ else None

    def opt(self, ex, has, val, st, T):
        return Opt(has, val, T)

    def extra_method(self, ex, e, st, q, name):
        line = e.get("line")
        if q == "llvm::json::Value":
            def f(ex, e, s, o, av):
                v = self.jval(ex, o, s)
                if v is None:
                    return None
                if name == "getAsObject":
                    return self.maybe(ex, is_obj(v), v, e, s)
                if name == "getAsInteger":
                    x = as_int(v)
                    s.assume(z3.And(x >= -(1 << 63), x < (1 << 63)))
                    return [(Opt(is_int(v), x, e["t"].targs[0]), s)]
                if name == "getAsString":
                    return [(Opt(is_str(v), Str.seq(as_str(v)), e["t"].targs[0]), s)]
                if name.startswith("operator="):
                    ex.store(o, self.jval(ex, av[0], s), s)
                    return [(o, s)]
                return None
            return self.run(ex, e, st, f)
        if q == "llvm::json::Object":
            def f(ex, e, s, o, av):
                v = self.jval(ex, o, s)
                if v is None or not av:
                    return None
                k = self.tostr(ex, av[0], s).concrete()
                if k is None:
                    return None
                n = k.decode()
                x = field(v, n)
                if name == "get":
                    return self.maybe(ex, has(v, n), x, e, s)
                if name == "getString":
                    return [(Opt(z3.And(has(v, n), is_str(x)), Str.seq(as_str(x)), e["t"].targs[0]), s)]
                if name == "getInteger":
                    y = as_int(x)
                    s.assume(z3.And(y >= -(1 << 63), y < (1 << 63)))
                    return [(Opt(z3.And(has(v, n), is_int(x)), y, e["t"].targs[0]), s)]
                if name == "getObject":
                    return self.maybe(ex, z3.And(has(v, n), is_obj(x)), x, e, s)
                return None
            return self.run(ex, e, st, f)
        if q == "llvm::Error" and name == "isA":
            kind = {"ReadEOF": EOF, "ParseError": PARSE}.get(str(e.get("fn")).rpartition("<")[2].split(";")[0].split("::")[-1].strip(">"))
            return None if kind is None else [(st.ghost["err"] == kind, st)]
        return WireModels.extra_method(self, ex, e, st, q, name)

    def maybe(self, ex, g, v, e, st):
        """pointer to v, null unless g"""
        out = []
        for b, s in ex.branch(g, st, e.get("line")):
            out.append((Ptr(ex.newloc(s, v, e["t"].to, "json")) if b else Ptr(None), s))
        return out

    def construct(self, ex, e, T, st):
        if T.q in ("llvm::json::Value", "llvm::json::Object"):
            out = []
            a = e["args"]
            if len(a) != 1:
                return None
            if T.q == "llvm::json::Object" and self.strip(a[0])["k"] == "stdil":
                return self.object(ex, self.strip(a[0])["e"], st)
            for av, s in ex.args_for(e, st):
                v = self.val(ex, av[0], s)
                if isinstance(v, JObj):
                    v = v.close(ex, s)
                elif isinstance(v, Str):
                    x = ex.as_seq(v)
                    v = of_str(x)
                    s.assume(z3.And(is_str(v), as_str(v) == x, z3.Not(is_obj(v)), z3.Not(is_int(v))))
                elif isinstance(v, Ptr) and v.lv is None or "nullptr" in e["pt"][0].s if e.get("pt") else False:
                    v = JNULL
                elif z3.is_expr(v) and v.sort() == I:
                    t = a[0]["t"]
                    if t.k == "int" or t.k == "enum":
                        x, v = v, of_int(v)
                        s.assume(z3.And(is_int(v), as_int(v) == x, z3.Not(is_obj(v)), z3.Not(is_str(v))))
                    elif t.s in ("std::nullptr_t", "nullptr_t"):
                        v = JNULL
                    else:
                        return None
                elif not (z3.is_expr(v) and v.sort() == OPQ):
                    return None
                out.append((v, s))
            return out
        if T.q == "llvm::json::ObjectKey":
            return [(self.tostr(ex, av[0], s), s) for av, s in ex.args_for(e, st)]
        if T.q == "llvm::Expected":
            out = []
            for av, s in ex.args_for(e, st):
                v = self.val(ex, av[0], s)
                if isinstance(v, Opt):
                    out.append((v, s))
                elif isinstance(v, Rec) and v.cls in ("llvm::Error", "llvm::ErrorSuccess"):
                    out.append((Opt(z3.BoolVal(False), ex.fresh(T.targs[0], "none", s), T.targs[0], "expected"), s))
                else:
                    x = self.jval(ex, av[0], s)
                    if x is None:
                        return None
                    out.append((Opt(z3.BoolVal(True), x, T.targs[0], "expected"), s))
            return out
        if T.q == "llvm::unique_function":
            return [(self.val(ex, av[0], s) if av else iv(0), s) for av, s in ex.args_for(e, st)]
        return WireModels.construct(self, ex, e, T, st)

    def m_map(self, ex, e, st, o, av):
        n = e["name"]
        if n in ("size", "begin", "cbegin") and e["clsq"] == "std::map":
            v = ex.load(o, st)
            c = card(v.has)
            st.assume(z3.And(c >= 0, c < BIG, *card_facts(v.has)))
            if n == "size":
                return [(c, st)]
            k, end = ex.const("least", I), ex.const("none", B)
            j = z3.Int("j!least")
            k2 = ex.const("another", I)
            st.assume(z3.Implies(c >= 2, z3.And(z3.Select(v.has, k2), k2 != k)))
            st.assume(z3.If(end, z3.And(c == 0, z3.ForAll([j], z3.Not(z3.Select(v.has, j)), patterns=[z3.Select(v.has, j)])),
                            z3.And(z3.Select(v.has, k), z3.ForAll([j], z3.Implies(z3.Select(v.has, j), k <= j), patterns=[z3.Select(v.has, j)]))))
            return [(MIt(o, k, end), st)]
        return WireModels.m_map(self, ex, e, st, o, av)

    @staticmethod
    def strip(e):
        while e["k"] in ("cast", "mat"):
            e = e["e"]
        return e

    def object(self, ex, e, st):
        items = self.strip(e)
        if items["k"] != "initlist":
            return None
        out = [({}, st)]
        for kv in items["a"]:
            kv = self.strip(kv)
            if kv["k"] != "initlist" or len(kv["a"]) != 2:
                return None
            nxt = []
            for d, s in out:
                for k, s2 in ex.rv(kv["a"][0], s):
                    for v, s3 in ex.rv(kv["a"][1], s2):
                        key = self.tostr(ex, k, s3).concrete()
                        v = self.jval(ex, v, s3)
                        if key is None or v is None:
                            raise Unsupported("JSON object with computed keys")
                        nxt.append((dict(d, **{key.decode(): v}), s3))
            out = nxt
        return [(JObj(d), s) for d, s in out]

    def free(self, ex, e, st, q, name):
        if q == "llvm::make_error":
            ts = str(e.get("fn"))
            out = []
            for av, s in ex.args_for(e, st):
                s.ghost["err"] = iv(1 if "ReadEOF" in ts else 3)
                if "LSPError" in ts and len(av) == 2:
                    s.ghost["errcode"] = self.val(ex, av[1], s)
                out.append((Rec("llvm::Error", {"fail": z3.BoolVal(True)}), s))
            return out
        if q == "llvm::inconvertibleErrorCode":
            return [(Rec("std::error_code", {}), st)]
        if q == "lspserver::error":
            return [(Rec("llvm::Error", {"fail": z3.BoolVal(True)}), st)]
        if q == "llvm::consumeError":
            return [(UNIT, s) for av, s in ex.args_for(e, st)]
        return WireModels.free(self, ex, e, st, q, name)


class JObj:
    """a JSON object written out"""

    def __init__(self, d):
        self.d = d

    def close(self, ex, st):
        v = ex.const("object", OPQ)
        st.assume(is_obj(v))
        for k, x in self.d.items():
            st.assume(z3.And(has(v, k), field(v, k) == x))
        for k in set(NAMES) | {k for kind, k in _F if kind == "has"}:
            if k not in self.d:
                st.assume(z3.Not(has(v, k)))
        return v


# how many keys a map has
card = z3.Function("number_of_keys", z3.ArraySort(I, B), I)


def card_facts(h):
    """what the steps by which h was made say about its number of keys"""
    out = []
    while z3.is_app(h) and h.decl().kind() == z3.Z3_OP_STORE:
        g, k, v = h.children()
        was, now = z3.If(z3.Select(g, k), 1, 0), z3.If(v, 1, 0)
        out.append(card(h) == card(g) - was + now)
        out.append(card(g) >= was)
        h = g
    return out


class RpcSpec(WireSpec):
    heap_classes = set()
    value_classes = ("lspserver::LSPServer",)
    arrstr = arrlit = False
    assumptions = ["JSON values are what the library says they are: their parts are functions of the value", "handlers and callbacks are arbitrary functions; they do not change the server's tables while they run"]

    def start(self, ex, st):
        WireSpec.start(self, ex, st)
        g = st.ghost
        for w in ("onCall", "onNotify", "onReply", "sent", "handler", "callback", "reply"):
            g["n:" + w] = iv(0)
        g["probe:n"] = iv(0)
        for k in ("waiting", "goon", "read:ok"):
            g[k] = ex.const(k, B)
        g["read:val"] = ex.const("read", OPQ)
        g["probe:has"], g["probe:ok"] = ex.const("probe", B), ex.const("probe", B)
        for k in ("probe:resp", "probe:val", "probe:id", "onReply:id", "onReply:val", "onCall:id", "onCall:params", "onNotify:params", "sent:msg", "handler:params", "callback:val", "reply:id", "reply:val"):
            g[k] = ex.const(k, OPQ)
        for k in ("onCall:method", "onNotify:method", "handler:method"):
            g[k] = ex.const(k, SEQ)
        for k in ("onReply:ok", "callback:ok", "hret", "reply:ok"):
            g[k] = ex.const(k, B)
        for k in ("callback:fn", "handler:fn", "errcode"):
            g[k] = ex.const(k, I)

    def build_hook(self, ex, T, mk, path, st):
        if T.k == "rec" and T.q == "llvm::unique_function":
            return mk(path, I)
        return None

    def loop_candidates(self, ex, s, entry, mod, roots):
        return [("nothing waits", lambda st: z3.Not(st.ghost["waiting"]))]

    def call_unknown(self, ex, c, e, av, st):
        """a handler or callback is called"""
        if not (z3.is_expr(c) and c.sort() == I):
            return None
        m = ex.models
        a = [m.val(ex, x, st) for x in av]
        if len(a) == 1 and isinstance(a[0], Opt):
            m.record(st, "callback", fn=c, ok=a[0].has, val=a[0].val)
            return [(UNIT, st)]
        p = m.jval(ex, a[0], st)
        if p is None or len(a) > 2:
            return None
        m.record(st, "handler", fn=c, params=p)
        if len(a) == 1:
            return [(UNIT, st)]
        # the function it gets for answering, tried on an arbitrary response
        clo = a[1]
        if not isinstance(clo, Clo):
            return None
        for x in clo.node["caps"]:
            t = x.get("t")
            if x.get("byref") and not x.get("this") or not x.get("this") and t is not None and (t.k == "ptr" or t.q in ("llvm::StringRef", "std::basic_string_view")):
                ex.ob(st, z3.BoolVal(False), "the answering function keeps what it needs", e.get("line"), ("P20",))
        r = Opt(ex.const("response", B), ex.const("response", OPQ), None, "expected")
        f = st.fork()
        n0 = st.ghost["n:reply"]
        out = []
        for _, s in ex.call_value(clo, dict(e, args=[]), [ex.newloc(f, r, None, "response")], f):
            t = st.fork()
            t.pc = list(s.pc)
            g = t.ghost
            g["probe:n"] = simp(s.ghost["n:reply"] - n0)
            g["probe:has"], g["probe:resp"] = r.has, r.val
            for k in ("id", "ok", "val"):
                g["probe:" + k] = s.ghost["reply:" + k]
            out.append((UNIT, t))
        return out

    def call_hook(self, ex, e, st):
        m = ex.models
        if e.get("virtual") and e["name"] in ("onCall", "onNotify", "onReply"):
            out = []
            for o, s0 in ex.obj_lv(e["obj"], e.get("arrow"), st, e.get("line")):
                for av, s in ex.args_for(e, s0):
                    a = [m.val(ex, x, s) for x in av]
                    n = e["name"]
                    if n == "onReply":
                        r = a[1]
                        m.record(s, n, id=m.jval(ex, a[0], s), ok=r.has, val=r.val)
                    elif n == "onCall":
                        m.record(s, n, method=ex.as_seq(a[0]), params=m.jval(ex, a[1], s), id=m.jval(ex, a[2], s))
                    else:
                        m.record(s, n, method=ex.as_seq(a[0]), params=m.jval(ex, a[1], s))
                    s.ghost["hret"] = ex.const("hret", B)
                    out.append((s.ghost["hret"], s))
            return out
        return None


class Rpc(Contract):
    ghost_ok = True


def only(c, *ev):
    """just these events happened, each once"""
    g, o = c.st.ghost, c.old.ghost
    return z3.And(*[g[k] == o[k] + (1 if k[2:] in ev else 0) for k in g if k.startswith("n:")])


class SendC(Rpc):
    """as proved for P21; here it only matters what is sent"""
    q = "lspserver::OutboundPort::sendMessage"

    def modifies(self, c):
        return [c.path(c.this, "OutputBuffer")] if isinstance(c.this, LV) else []

    def ensures(self, c):
        if c.assuming:
            c.ex.models.record(c.st, "sent", msg=c.ex.models.jval(c.ex, c.args[0], c.st))
        return []


class Notify(Rpc):
    q = "lspserver::OutboundPort::notify"

    modifies = SendC.modifies

    def msg(self, c, **kw):
        if c.assuming:
            c.st.ghost["sent:msg"] = c.ex.const("msg", OPQ)
            c.st.ghost["n:sent"] = simp(c.old.ghost["n:sent"] + 1)
        m = c.st.ghost["sent:msg"]
        fs = dict(jsonrpc=of_str(seq(b"2.0")), **kw)
        names = ["jsonrpc", "method", "params", "id", "result", "error"]
        return [("one message", only(c, "sent"), ("P20",)),
                ("its fields", z3.And(is_obj(m), *[z3.And(has(m, k), field(m, k) == fs[k]) if k in fs else z3.Not(has(m, k)) for k in names]), ("P20",))]

    def ensures(self, c):
        return self.msg(c, method=of_str(c.ex.as_seq(c.oldarg(0))), params=c.oldarg(1))


class Call(Notify):
    q = "lspserver::OutboundPort::call"

    def ensures(self, c):
        return self.msg(c, method=of_str(c.ex.as_seq(c.oldarg(0))), params=c.oldarg(1), id=c.oldarg(2))


class Reply(Notify):
    q = "lspserver::OutboundPort::reply"

    def ensures(self, c):
        r = c.oldarg(1)
        if c.assuming:
            c.ex.models.record(c.st, "reply", id=c.args[0], ok=r.has, val=r.val)
            return []
        m = c.st.ghost["sent:msg"]
        return [("one message", only(c, "sent"), ("P20",)),
                ("an answer with the id it is for", z3.And(is_obj(m), has(m, "id"), field(m, "id") == c.oldarg(0), has(m, "jsonrpc"), field(m, "jsonrpc") == of_str(seq(b"2.0")), z3.Not(has(m, "method"))), ("P20",)),
                ("the result or an error, never both", z3.And(has(m, "result") == r.has, has(m, "error") == z3.Not(r.has), z3.Implies(r.has, field(m, "result") == r.val)), ("P20",))]


class EncodeError(Rpc):
    q = "lspserver::encodeError"
    trusted = True

    def result(self, c, T, e):
        return c.ex.const("errobj", OPQ)

    def ensures(self, c):
        return [("an object", is_obj(c.ret))]


class DecodeError(Rpc):
    q = "lspserver::decodeError"

    def result(self, c, T, e):
        return Rec("llvm::Error", {"fail": z3.BoolVal(True)})

    def ensures(self, c):
        return [("an error", c.ret.f["fail"], ("P20",))]


class Dispatch(Rpc):
    q = "lspserver::InboundPort::dispatch"

    def requires(self, c):
        g = c.st.ghost
        return [("it is the message that was just read", z3.And(g["waiting"], g["read:val"] == c.arg(0)))]

    def ensures(self, c):
        g = c.st.ghost
        m = c.oldarg(0)
        if c.assuming:
            g["waiting"] = z3.BoolVal(False)
            g["goon"] = c.ret
            return []
        f = lambda n: field(m, n)
        rpc = z3.And(is_obj(m), has(m, "jsonrpc"), is_str(f("jsonrpc")), as_str(f("jsonrpc")) == seq(b"2.0"))
        meth = z3.And(has(m, "method"), is_str(f("method")))
        idd, err = has(m, "id"), z3.And(has(m, "error"), is_obj(f("error")))
        params = z3.If(has(m, "params"), f("params"), JNULL)
        res = z3.If(has(m, "result"), f("result"), JNULL)
        ign = z3.Or(z3.Not(rpc), z3.And(z3.Not(meth), z3.Not(idd)))
        call, note, rep = z3.And(rpc, meth, idd), z3.And(rpc, meth, z3.Not(idd)), z3.And(rpc, z3.Not(meth), idd)
        return [("what is no JSON-RPC message is ignored", z3.Implies(ign, z3.And(only(c), c.ret)), ("P20",)),
                ("a request goes to the request handler once, with its method, parameters and id", z3.Implies(call, z3.And(only(c, "onCall"), g["onCall:method"] == as_str(f("method")), g["onCall:params"] == params, g["onCall:id"] == f("id"))), ("P20",)),
                ("a notification goes to the notification handler once", z3.Implies(note, z3.And(only(c, "onNotify"), g["onNotify:method"] == as_str(f("method")), g["onNotify:params"] == params)), ("P20",)),
                ("a reply goes to the reply handler once, with its id", z3.Implies(rep, z3.And(only(c, "onReply"), g["onReply:id"] == f("id"), g["onReply:ok"] == z3.Not(err), z3.Implies(z3.Not(err), g["onReply:val"] == res))), ("P20",)),
                ("the handler decides whether serving goes on", z3.Implies(z3.Not(ign), c.ret == g["hret"]), ("P20",))]


class LNotify(Rpc):
    q = "lspserver::LSPServer::onNotify"

    def ensures(self, c):
        g, f = c.st.ghost, c.get("Registry", c.old).f["NotificationHandlers"]
        m = c.ex.as_seq(c.oldarg(0))
        known = z3.Select(f.has, m)
        exit = m == seq(b"exit")
        fn = c.ex.map_get(f, m, c.st)
        return [("only exit ends serving", c.ret == z3.Not(exit), ("P20",)),
                ("the handler of that method is called once, with the parameters", z3.Implies(z3.And(known, z3.Not(exit)), z3.And(only(c, "handler"), g["handler:fn"] == fn, g["handler:params"] == c.oldarg(1))), ("P20",)),
                ("otherwise nothing is called", z3.Implies(z3.Or(exit, z3.Not(known)), only(c)), ("P20",))]


class LCall(Rpc):
    q = "lspserver::LSPServer::onCall"

    def requires(self, c):
        return [("the server has a port to answer to", c.get("Out") > 0)]

    def ensures(self, c):
        g, f = c.st.ghost, c.get("Registry", c.old).f["MethodHandlers"]
        m, i = c.ex.as_seq(c.oldarg(0)), c.oldarg(2)
        known = z3.Select(f.has, m)
        fn = c.ex.map_get(f, m, c.st)
        return [("serving goes on", c.ret, ("P20",)),
                ("the handler of that method is called once, with the parameters", z3.Implies(known, z3.And(only(c, "handler"), g["handler:fn"] == fn, g["handler:params"] == c.oldarg(1))), ("P20",)),
                ("what it answers goes out as the one answer to this request", z3.Implies(known, z3.And(g["probe:n"] == 1, g["probe:id"] == i, g["probe:ok"] == g["probe:has"], z3.Implies(g["probe:has"], g["probe:val"] == g["probe:resp"]))), ("P20",)),
                ("a request nobody handles is answered with an error", z3.Implies(z3.Not(known), z3.And(only(c, "reply"), g["reply:id"] == i, z3.Not(g["reply:ok"]), g["errcode"] == -32601)), ("P20",))]


def pending(c, st):
    return c.get("PendingCalls", st)


def ids(c, st):
    """no call waiting has an id that will be given out"""
    p, t = pending(c, st), c.get("TopID", st)
    k = z3.Int("k!ids")
    return [("ids are given out in turn", c.forall(k, z3.Implies(z3.Select(p.has, k), z3.And(1 <= k, k < t)), z3.Select(p.has, k))), ("ids begin at 1", t >= 1)]


class LReply(Rpc):
    q = "lspserver::LSPServer::onReply"

    def requires(self, c):
        return ids(c, c.st)

    def modifies(self, c):
        return [c.path(c.this, "PendingCalls")]

    def ensures(self, c):
        g = c.st.ghost
        p, n = pending(c, c.old), pending(c, c.st)
        v = c.oldarg(0)
        i = as_int(v)
        r = c.oldarg(1)
        known = z3.And(is_int(v), i >= INT[0], i <= INT[1], z3.Select(p.has, i))
        return [("serving goes on", c.ret, ("P20",)),
                ("the callback of the call answered is called once, with the answer", z3.Implies(known, z3.And(only(c, "callback"), g["callback:fn"] == c.ex.map_get(p, i, c.st), g["callback:ok"] == r.has, z3.Implies(r.has, g["callback:val"] == r.val))), ("P20",)),
                ("it no longer waits", z3.Implies(known, z3.Not(z3.Select(n.has, i))), ("P20",)),
                ("a reply to no call does nothing", z3.Implies(z3.Not(known), only(c)), ("P20",)),
                ("all other calls keep waiting", z3.Implies(z3.Not(z3.And(known, KQ == i)), z3.And(z3.Select(n.has, KQ) == z3.Select(p.has, KQ), z3.Implies(z3.Select(p.has, KQ), c.ex.map_get(n, KQ, c.st) == c.ex.map_get(p, KQ, c.st)))), ("P20",))
                ] + [(a, b, ("P20",)) for a, b in ids(c, c.st)]


LIMIT = 50


class Bind(Rpc):
    q = "lspserver::LSPServer::bindReply"

    def requires(self, c):
        return ids(c, c.st) + [("fewer than 2^31 - 1 calls", c.get("TopID") < INT[1])]

    def modifies(self, c):
        return [c.path(c.this, "PendingCalls"), c.path(c.this, "TopID")]

    def ensures(self, c):
        g = c.st.ghost
        p, n = pending(c, c.old), pending(c, c.st)
        has = lambda m, k: z3.Select(m.has, k)
        fn = lambda m, k: c.ex.map_get(m, k, c.st)
        one = z3.And(only(c, "callback"), z3.Not(g["callback:ok"]))
        old = c.oldarg(0)
        if c.assuming:
            g["n:callback"] = c.ex.const("n", I)
        return [("the id is new", z3.And(c.ret == c.get("TopID", c.old), z3.Not(has(p, c.ret)), c.get("TopID") == c.ret + 1), ("P20",)),
                ("the call waits for its reply", z3.And(has(n, c.ret), fn(n, c.ret) == old), ("P20",)),
                ("at most one call is given up, with an error", z3.Or(only(c), one), ("P20",)),
                ("no call is given up while few are waiting", z3.Implies(card(p.has) < LIMIT, only(c)), ("P20",)),
                ("a call is given up with its own callback, and waits no longer; all others keep waiting", z3.Implies(KQ != c.ret, z3.Or(
                    z3.And(has(n, KQ) == has(p, KQ), z3.Implies(has(p, KQ), fn(n, KQ) == fn(p, KQ))),
                    z3.And(has(p, KQ), z3.Not(has(n, KQ)), one, g["callback:fn"] == fn(p, KQ)))), ("P20",)),
                ("a call that is given up is one that was waiting", z3.Implies(z3.And(z3.Not(only(c)), z3.ForAll([KK], has(n, KK) == z3.Or(KK == c.ret, has(p, KK)), patterns=[has(n, KK)])), z3.BoolVal(False)), ("P20",))
                ] + [(a, b, ("P20",)) for a, b in ids(c, c.st)]


KK = z3.Int("k!given")


class CallMethod(Rpc):
    q = "lspserver::LSPServer::callMethod"

    def requires(self, c):
        return Bind().requires(c) + [("there is a port", c.arg(3) > 0)]

    def modifies(self, c):
        return Bind.modifies(self, c)

    def ensures(self, c):
        g = c.st.ghost
        m = g["sent:msg"]
        return [("one request is sent, with a new id under which its callback waits", z3.And(g["n:sent"] == c.old.ghost["n:sent"] + 1, field(m, "id") == of_int(c.get("TopID", c.old)), has(m, "id"),
            has(m, "method"), field(m, "method") == of_str(c.ex.as_seq(c.oldarg(0))), field(m, "params") == c.oldarg(1), z3.Select(pending(c, c.st).has, c.get("TopID", c.old)), c.ex.map_get(pending(c, c.st), c.get("TopID", c.old), c.st) == c.oldarg(2)), ("P20",))]


class Read(Rpc):
    """what readStandardMessage is shown to do for P21: a message, or an error of some kind"""
    q = "lspserver::InboundPort::readMessage"
    trusted = True

    def requires(self, c):
        return [("the message read before has been dispatched", z3.Not(c.st.ghost["waiting"]))]

    def modifies(self, c):
        return [c.args[0]]

    def ensures(self, c):
        g = c.st.ghost
        g["err"] = c.ex.const("err", I)
        g["read:val"], g["read:ok"], g["waiting"] = c.ret.val, c.ret.has, c.ret.has
        return []


class Loop(Rpc):
    q = "lspserver::InboundPort::loop"
    endless = True

    def ensures(self, c):
        g = c.st.ghost
        return [("every message that is read is dispatched", z3.Not(g["waiting"]), ("P20",)),
                ("serving ends only when a handler says so, or the stream ends or cannot be read on", z3.Or(z3.And(g["read:ok"], z3.Not(g["goon"])), z3.And(z3.Not(g["read:ok"]), g["err"] != PARSE)), ("P20",))]

    def requires(self, c):
        return [("nothing was read yet", z3.Not(c.st.ghost["waiting"]))]


CONTRACTS = [Read(), Loop(), LNotify(), LCall(), LReply(), Bind(), CallMethod(), SendC(), Notify(), Call(), Reply(), EncodeError(), DecodeError(), Dispatch()]
FNS = ["lspserver::InboundPort::loop", "lspserver::OutboundPort::notify", "lspserver::OutboundPort::call", "lspserver::OutboundPort::reply", "lspserver::decodeError", "lspserver::InboundPort::dispatch"] + ["lspserver::LSPServer::" + f for f in ("onNotify", "onCall", "onReply", "bindReply", "callMethod")]


def contracts():
    return {c.q: c for c in CONTRACTS}


SPECFUNS = []


def lemmas():
    return []


SPEC, MODELS = RpcSpec, RpcModels
