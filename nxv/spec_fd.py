"""Contracts for descriptor ownership (nixd/lib/Support/AutoCloseFD.cpp, ForkPiped.cpp, StreamProc.cpp).

Ghost state: `ends` is the descriptor table of the calling process, from descriptor
to what it is connected to (0 when closed; 2p and 2p+1 are the reading and the
writing end of pipe p), `pipes` numbers the pipes made so far."""
import z3
from .vals import *
from .exec import Contract
from .driver import Spec
from .lib import Models

TAB = z3.ArraySort(I, I)
RELEASED = -9      # -EBADF


class FdModels(Models):
    noreturn = ("exit", "_exit")

    def ends(self, st):
        return st.ghost["ends"]

    def free(self, ex, e, st, q, name):
        if q == "close":
            out = []
            for av, s in ex.args_for(e, st):
                fd = self.val(ex, av[0], s)
                ex.ob(s, z3.And(fd >= 0, self.ends(s)[fd] != 0), "only an open descriptor is closed", e.get("line"), ("P24",))
                s.ghost["ends"] = simp(z3.Store(self.ends(s), fd, iv(0)))
                r = ex.const("close", I)
                s.assume(z3.And(r >= -1, r <= 0))
                out.append((r, s))
            return out
        if q == "pipe":
            out = []
            for av, s in ex.args_for(e, st):
                a = av[0]
                a = a.lv if isinstance(a, Ptr) else a.cont if isinstance(a, It) else a
                if not isinstance(a, LV):
                    return None
                bad = s.fork()
                bad.trace = (bad.trace, (e.get("line"), "pipe fails"))
                bad.ghost["failed"] = z3.BoolVal(True)
                out.append((iv(-1), bad))
                r, w, n = ex.const("rd", I), ex.const("wr", I), s.ghost["pipes"]
                t = self.ends(s)
                s.assume(z3.And(r >= 0, w >= 0, r != w, t[r] == 0, t[w] == 0, r <= 0x7fffffff, w <= 0x7fffffff))
                ex.store(a.index(iv(0)), r, s)
                ex.store(a.index(iv(1)), w, s)
                s.ghost["ends"] = z3.Store(z3.Store(t, r, 2 * n), w, 2 * n + 1)
                s.ghost["pipes"] = simp(n + 1)
                out.append((iv(0), s))
            return out
        if q == "fork":
            r = ex.const("pid", I)
            bad = st.fork()
            bad.trace = (bad.trace, (e.get("line"), "fork fails"))
            bad.ghost["failed"] = z3.BoolVal(True)
            child = st.fork()
            child.trace = (child.trace, (e.get("line"), "in the child"))
            child.ghost["child"] = z3.BoolVal(True)
            st.assume(z3.And(r > 0, r <= 0x7fffffff))
            return [(iv(-1), bad), (iv(0), child), (r, st)]
        if q == "dup2":
            out = []
            for av, s in ex.args_for(e, st):
                a, b = self.val(ex, av[0], s), self.val(ex, av[1], s)
                t = self.ends(s)
                ex.ob(s, z3.And(a >= 0, t[a] != 0, b >= 0), "only an open descriptor is duplicated", e.get("line"), ("P24",))
                s.ghost["ends"] = z3.Store(t, b, t[a])
                out.append((b, s))
            return out
        if q == "__errno_location":
            l = ex.newloc(st, ex.const("errno", I), None, "errno")
            return [(Ptr(l), st)]
        if q in ("std::generic_category", "std::system_category"):
            return [(ex.newloc(st, Rec("std::error_category", {}), None), st)]
        if q == "exit" or q == "_exit":
            out = []
            for av, s in ex.args_for(e, st):
                ex.ob(s, s.ghost["child"], "only the child process ends", e.get("line"), ("P24",))
                s.dead = True
            return out
        if q == "std::make_unique":
            T = e["t"].targs[0]
            out = []
            for av, s in ex.args_for(e, st):
                v = [self.val(ex, a, s) for a in av]
                t, own = self.ends(s), s.ghost["owned"]
                if T.q == "nixd::util::PipedProc" and len(v) == 4:
                    i, o, r = v[1:]
                    ex.ob(s, z3.And(*[z3.And(t[x] != 0, z3.Not(own[x])) for x in v[1:]], i != o, i != r, o != r), "each holder gets an open descriptor nobody else closes", e.get("line"), ("P24",))
                    h = Rec(T.n, {"PID": v[0], "Stdin": Rec("nixd::util::AutoCloseFD", {"FD": i}), "Stdout": Rec("nixd::util::AutoCloseFD", {"FD": o}), "Stderr": Rec("nixd::util::AutoCloseFD", {"FD": r})})
                    for x in v[1:]:
                        own = z3.Store(own, x, z3.BoolVal(True))
                    s.ghost["owned"] = own
                    s.ghost["holds"] = z3.BoolVal(True)
                    s.ghost["h0"], s.ghost["h1"], s.ghost["h2"] = i, o, r
                    s.ghost["hp"] = v[0]
                    p = ex.const("proc", I)
                    s.assume(p > 0)
                    out.append((p, s))
                elif T.q == "llvm::raw_fd_ostream":
                    close = v[1] if len(v) > 1 else z3.BoolVal(True)
                    if z3.is_expr(close) and close.sort() == I:
                        close = close != 0
                    ex.ob(s, t[v[0]] != 0, "the stream writes to an open descriptor", e.get("line"), ("P24",))
                    ex.ob(s, z3.Implies(close, z3.Not(own[v[0]])), "the stream does not close what a holder closes", e.get("line"), ("P24",))
                    s.ghost["owned"] = z3.If(close, z3.Store(own, v[0], z3.BoolVal(True)), own)
                    s.ghost["streamfd"] = v[0]
                    p = ex.const("stream", I)
                    s.assume(p > 0)
                    out.append((p, s))
                else:
                    return None
            return out
        return Models.free(self, ex, e, st, q, name)

    def construct(self, ex, e, T, st):
        if T.q == "std::system_error":
            return [(Rec("std::system_error", {}), s) for av, s in ex.args_for(e, st)]
        return Models.construct(self, ex, e, T, st)


class FdSpec(Spec):
    assumptions = ["pipe gives two unused descriptors, fork copies the descriptor table, dup2 and close on open descriptors work",
                   "the standard descriptors of the process are open when it launches a child"]

    def start(self, ex, st):
        st.ghost["ends"] = self.t0 = ex.const("ends", TAB)
        st.ghost["pipes"] = ex.const("pipes", I)
        st.ghost["owned"] = ex.const("owned", z3.ArraySort(I, B))
        for k in ("failed", "child", "holds"):
            st.ghost[k] = z3.BoolVal(False)
        for k in ("h0", "h1", "h2", "hp", "streamfd", "cin", "cout", "cerr", "pid"):
            st.ghost[k] = iv(-1)
        st.assume(st.ghost["pipes"] > 0)

    def call_unknown(self, ex, c, e, av, st):
        # the action given to a launch: runs in the child, must not be run elsewhere
        ex.ob(st, st.ghost["child"], "the action runs in the child only", e.get("line"), ("P24",))
        r = ex.const("action", I)
        st.assume(z3.And(r >= -0x80000000, r <= 0x7fffffff))
        return [(r, st)]

    def throw_ok(self, ex, e, st):
        line = e.get("line")
        ex.ob(st, z3.And(st.ghost["failed"], z3.Not(st.ghost["child"])), "an error is raised only after a failure, in the parent", line, ("P24",))
        ex.ob(st, st.ghost["ends"] == self.t0, "a failed launch leaves no descriptor open", line, ("P24",))
        return True


class FdC(Contract):
    ghost_ok = True


def opened(c, fd):
    return z3.And(fd >= 0, c.st.ghost["ends"][fd] != 0)


def same(c):
    return ("no descriptor is opened or closed", c.st.ghost["ends"] == c.old.ghost["ends"], ("P24",))


def held(c):
    fd = c.get("FD")
    return [("a descriptor that is not released is open", z3.Or(fd == RELEASED, opened(c, fd)), ("safety",))]


class Dtor(FdC):
    q = "nixd::util::AutoCloseFD::~AutoCloseFD"

    def requires(self, c):
        return held(c)

    def ensures(self, c):
        fd, t = c.oldv("FD"), c.old.ghost["ends"]
        return [("exactly the descriptor held is closed", c.st.ghost["ends"] == z3.If(fd == RELEASED, t, z3.Store(t, fd, iv(0))), ("P24",))]


class Ctor(FdC):
    q = "nixd::util::AutoCloseFD::AutoCloseFD"

    def overload(self, name, f):
        return (name == "move") == (f["params"][0]["t"].k == "rref")

    def modifies(self, c):
        return [c.this] + ([c.args[0]] if isinstance(c.args[0], LV) else [])

    def ensures(self, c):
        if isinstance(c.args[0], LV):
            old = c.ex.load(c.path(c.args[0], "FD"), c.old)
            return [("the descriptor moves", c.get("FD") == old, ("P24",)), ("the other holder lets go of it", c.ex.load(c.path(c.args[0], "FD"), c.st) == RELEASED, ("P24",)), same(c)]
        return [("holds the descriptor given", c.get("FD") == c.oldarg(0), ("P24",)), same(c)]


class Get(FdC):
    q = "nixd::util::AutoCloseFD::get"

    def ensures(self, c):
        return [("the descriptor held", c.ret == c.oldv("FD"), ("P24",)), same(c)]


class Release(FdC):
    q = "nixd::util::AutoCloseFD::release"

    def modifies(self, c):
        return [c.path(c.this, "FD")]

    def ensures(self, c):
        return [("lets go of the descriptor", c.get("FD") == RELEASED, ("P24",)), same(c)]


class IsReleased(FdC):
    q = "nixd::util::AutoCloseFD::isReleased"

    def ensures(self, c):
        fd = c.oldarg(0) if c.args else c.oldv("FD")
        return [("says whether it was released", c.ret == (fd == RELEASED), ("P24",)), same(c)]


class Fork(FdC):
    q = "nixd::forkPiped"

    def __init__(self):
        self.pair = None

    def requires(self, c):
        t = c.st.ghost["ends"]
        self.pair = None
        return [("the standard descriptors are open", z3.And(*[t[i] != 0 for i in range(3)]), ("safety",))]

    def modifies(self, c):
        return list(c.args)

    def side(self, c, fds, w):
        """the pipes whose ends (w: writing ends) are at fds on this path"""
        n = c.old.ghost["pipes"]
        out = []
        for fd, d in zip(fds, w):
            out.append(next((k for k in range(3) if c.ex.provable(c.st, c.st.ghost["ends"][fd] == 2 * (n + k) + d)), None))
        return out

    def ensures(self, c):
        g, t0 = c.st.ghost, c.old.ghost["ends"]
        t = g["ends"]
        if c.assuming:
            ex = c.ex
            a = [c.arg(i) for i in range(3)]
            pipes = [ex.const("pipe", I) for _ in a]
            g["child"], g["ends"], n0, g["pipes"] = ex.const("child", B), ex.const("ends", TAB), g["pipes"], ex.const("pipes", I)
            g["cin"], g["cout"], g["cerr"], g["pid"] = *a, c.ret
            t = t0
            for x, p, d in zip(a, pipes, (1, 0, 0)):
                t = z3.Store(t, x, 2 * p + d)
            return [("zero is returned in the child", g["child"] == (c.ret == 0)), ("no failure", c.ret >= 0), ("new pipes", z3.And(z3.Distinct(*pipes), *[z3.And(p >= n0, p < g["pipes"]) for p in pipes])),
                    ("three open descriptors in the parent", z3.Implies(c.ret != 0, z3.And(*[z3.And(x >= 0, t0[x] == 0) for x in a], z3.Distinct(*a), g["ends"] == t)))]
        child = c.ex.provable(c.st, g["child"])
        if not child and not c.ex.provable(c.st, z3.Not(g["child"])):
            return [("parent and child are told apart", z3.BoolVal(False), ("P24",))]
        if child:
            fds, dirs = [iv(0), iv(1), iv(2)], (0, 1, 1)
        else:
            fds, dirs = [c.arg(i) for i in range(3)], (1, 0, 0)
        got = self.side(c, fds, dirs)
        if self.pair is None and None not in got and len(set(got)) == 3:
            self.pair = got
        n = c.old.ghost["pipes"]
        pr = self.pair or [0, 1, 2]
        out = []
        exp = t0
        for fd, d, k in zip(fds, dirs, pr):
            out.append(z3.And(fd >= 0, t[fd] == 2 * (n + k) + d))
            exp = z3.Store(exp, fd, 2 * (n + k) + d)
        who = "child" if child else "parent"
        return [("no failure is hidden", z3.Not(g["failed"]), ("P24",)),
                ("%s: the return value" % who, (c.ret == 0) if child else (c.ret > 0), ("P24",)),
                ("%s: input, output and error are connected to the other side" % who, z3.And(*out), ("P24",)),
                ("%s: three distinct descriptors" % who, z3.Distinct(*fds), ("P24",)),
                ("%s: no other end of the pipes stays open" % who, t == exp, ("P24",))]


class Stream(FdC):
    q = "nixd::StreamProc::StreamProc"

    def requires(self, c):
        t = c.st.ghost["ends"]
        x = z3.Int("fd!any")
        return [("the standard descriptors are open", z3.And(*[t[i] != 0 for i in range(3)]), ("safety",)),
                ("what is owned is open", z3.ForAll([x], z3.Implies(c.st.ghost["owned"][x], t[x] != 0), patterns=[c.st.ghost["owned"][x]]), ("safety",))]

    def modifies(self, c):
        return [c.this]

    def ensures(self, c):
        g = c.st.ghost
        t = g["ends"]
        return [("only the parent goes on", z3.Not(g["child"]), ("P24",)),
                ("the child's input, output and error are held, each by its holder", z3.And(g["holds"], g["h0"] == g["cin"], g["h1"] == g["cout"], g["h2"] == g["cerr"]), ("P24",)),
                ("the child's process id is kept", g["hp"] == g["pid"], ("P24",)),
                ("the stream writes to the child's input", g["streamfd"] == g["cin"], ("P24",))]


FNS = ["nixd::util::AutoCloseFD::" + f for f in ("~AutoCloseFD", "AutoCloseFD#int", "AutoCloseFD#move", "get", "release", "isReleased#0", "isReleased#1")] + ["nixd::forkPiped", "nixd::StreamProc::StreamProc"]
CONTRACTS = [Dtor(), Ctor(), Get(), Release(), IsReleased(), Fork(), Stream()]


def contracts():
    return {c.q: c for c in CONTRACTS}


SPECFUNS = []


def lemmas():
    """holders h1, h2, ... of descriptors H[h] (RELEASED: none), C[f] times f was closed, R[f] times it was released, G[f] times it was handed to a holder.
    The contracts of the constructors, release and the destructor, each applied to an arbitrary holder, keep
      (1) no two holders hold the same descriptor, (2) what a holder holds was handed out once more than it was closed or released,
      (3) everything else was closed or released as often as it was handed out."""
    H, H2 = z3.Consts("H H2", TAB)
    L, L2 = z3.Consts("L L2", TAB)      # handed out minus closed minus released
    W, W2 = z3.Consts("W W2", TAB)      # the holder of a descriptor, 0: none
    h, k, f, x, y = z3.Ints("h k f x y")
    def inv(H, L, W, x, f):
        return z3.And(z3.Implies(H[x] != RELEASED, z3.And(W[H[x]] == x, x > 0)), z3.Implies(W[f] != 0, z3.And(H[W[f]] == f, L[f] == 1, f != RELEASED)), z3.Implies(W[f] == 0, L[f] == 0))
    al = z3.ForAll([x, f], inv(H, L, W, x, f))
    pre = [al, h > 0, k > 0, h != k]
    goal = inv(H2, L2, W2, y, z3.Int("g"))
    fresh = H[h] == RELEASED
    st = z3.Store
    return [("every descriptor handed to a holder is closed or released once", ("P24",), [
        ("wrapping an unowned descriptor", pre + [fresh, f >= 0, W[f] == 0, H2 == st(H, h, f), W2 == st(W, f, h), L2 == st(L, f, L[f] + 1)], goal),
        ("moving", pre + [fresh, H2 == st(st(H, h, H[k]), k, RELEASED), W2 == z3.If(H[k] == RELEASED, W, st(W, H[k], h)), L2 == L], goal),
        ("releasing", pre + [H2 == st(H, h, RELEASED), W2 == z3.If(H[h] == RELEASED, W, st(W, H[h], iv(0))), L2 == z3.If(H[h] == RELEASED, L, st(L, H[h], L[H[h]] - 1))], goal),
        ("destroying", pre + [H2 == st(H, h, RELEASED), W2 == z3.If(H[h] == RELEASED, W, st(W, H[h], iv(0))), L2 == z3.If(H[h] == RELEASED, L, st(L, H[h], L[H[h]] - 1))], goal),
        ("in the end nothing is left over", [al, z3.ForAll([x], H[x] == RELEASED)], L[f] == 0)])]


SPEC, MODELS = FdSpec, FdModels
