"""Function-by-function verification driver."""
import time, traceback
import z3
from .vals import *
from .exec import Exec, State, Ctx, Contract, Obligation, Budget
from . import smt


class Spec:
    """Default hooks; subclasses specialise them for one group of functions."""
    heap_classes = set()
    value_classes = ()      # classes with virtual functions whose one object is a value
    mutable_heap = set()
    assumptions = []
    arrstr = False        # strings are byte arrays, also when a callee rewrites them
    arrlit = False        # ... and strings that begin as a literal, too

    generic_loops = True  # invariants and measures are also guessed from the loop's shape
    opaque = frozenset()  # specification functions of which only the facts, not the definition, are used

    def build_hook(self, ex, T, mk, path, st): return None
    def zero_hook(self, ex, T, st): return None
    def default_hook(self, ex, T, st): return None
    def heap_read(self, ex, lv, v, st): pass
    def downcast(self, ex, T, v, st, line): pass
    def elem_read(self, ex, v, idx, x, st): pass
    def map_read(self, ex, m, key, st): pass
    def map_write(self, ex, m, key, leaves, how, st, line): pass
    def loop_candidates(self, ex, s, entry, mod, roots): return []
    def measures(self, ex, entry, mod, roots): return []
    def path_end(self, ex, st, where): pass
    def range_hook(self, ex, l, v, s, st): return None
    def throw_ok(self, ex, e, st): return False
    def devirt(self, ex, e): return False
    def call_unknown(self, ex, c, e, av, st): return None
    def call_hook(self, ex, e, st): return None
    def on_alloc(self, ex, T, v, ref, st): pass
    def start(self, ex, st): pass
    def existed(self, ex, st, r): return None    # the object was there in this state


class Result:
    def __init__(self, fn):
        self.fn = fn; self.obs = []; self.status = "ok"; self.error = None
        self.time = 0; self.assumed = set(); self.inlined = set(); self.loops = []
        self.queries = 0; self.solver_time = 0; self.where = None; self.paths = 0

    def failed(self):
        return [o for o in self.obs if o.status != "ok"]


class RecType:
    def __init__(self, n):
        self.n = n; self.k = "rec"; self.q = n; self.targs = []; self.s = n; self.to = None
        self.const = False; self.lam = None


def verify(db, spec, contracts, models, contract, budget=300, fn=None, hints=None, case=None):
    q = contract.q
    f = fn if fn is not None else pick(db, contract)
    r = Result(q)
    t0 = time.time()
    q0, s0 = smt.STAT["queries"], smt.STAT["time"]
    smt.OPAQUE = spec.opaque
    if not f or f.get("body") is None:
        r.status = "missing"; r.error = "function %s not found in the source" % q
        return r
    r.where = "%s:%s" % (f.get("file", ""), f.get("line", ""))
    # the function under proof is never replaced by its own contract at the top level
    ex = Exec(db, contracts, models, spec)
    ex.curfn = q
    ex.deadline = time.time() + budget
    ex.cur_scc = contract.scc
    ex.endless = contract.endless
    ex.hints = hints
    try:
        st = State()
        ex.init_heap(st)
        spec.start(ex, st)
        this = None
        if f.get("cls") and not f.get("static"):
            T = db.types.get(f["cls"]) or RecType(f["cls"])
            if ex.heapclass(T):
                ref = ex.const("this", I)
                st.assume(ref > 0)
                this = HLV(ref, T.n, (), T)
            else:
                v = Rec(T.n, {}) if f.get("ctor") else ex.fresh(T, "this", st)
                this = ex.newloc(st, v, T, "this")
        args = []
        for p in f["params"]:
            T = p["t"]
            if T.k in ("ref", "rref"):
                v = ex.fresh(T.to, p["name"] or "arg", st) if not ex.heapclass(T.to) else None
                if v is None:
                    ref = ex.const(p["name"] or "arg", I)
                    st.assume(ref > 0)
                    args.append(HLV(ref, T.to.n, (), T.to))
                elif isinstance(v, LV):
                    args.append(v)
                else:
                    args.append(ex.newloc(st, v, T.to, p["name"]))
            else:
                v = ex.fresh(T, p["name"] or "arg", st)
                args.append(v)
        ctx = Ctx(ex, st, this, args, contract, None)
        contract.setup(ctx)
        ex.topctx = ctx
        ctx.assuming = True
        for nm, g, tags in contract.requires_list(ctx):
            st.assume(g)
        ctx.assuming = False
        if case is not None:
            cs = contract.cases(ctx)
            if not 0 <= case <= len(cs):
                raise Unsupported("no such case")
            st.assume(z3.And(*([z3.Not(g) for g in cs[:case]] + cs[case:case + 1])))
        # vacuity: the precondition is satisfiable
        rr, _ = smt.check(st.pc + smt.unfold(st.pc, 1), 5000)
        o = Obligation(q, "precondition is satisfiable", f.get("line"), ("vacuity",))
        o.status = "ok" if rr != z3.unsat else "fail"; o.backend = "z3"
        ex.obs.append(o)
        ex.entry_measure = contract.measure(ctx)
        old = st.fork()
        leaves0 = {}
        res = ex.run_fn(f, this, args, st)
        for kind, v, s in res:
            r.paths += 1
            post = Ctx(ex, s, this, args, contract, old)
            post.ret = v
            ex.obs_batch(s, [("postcondition: " + nm, g, tags) for nm, g, tags in contract.ensures_list(post)], f.get("line"))
            contract.frame(post)
            spec.path_end(ex, s, "return")
        if not res and not contract.may_not_return:
            o = Obligation(q, "some execution returns", f.get("line"), ("vacuity",))
            o.status = "fail"
            ex.obs.append(o)
    except Unsupported as e:
        r.status = "unsupported"; r.error = str(e)
    except Budget as e:
        r.status = "budget"; r.error = str(e)
    except RecursionError as e:
        r.status = "unsupported"; r.error = "recursion limit"
    except (KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError, z3.Z3Exception) as e:
        r.status = "unsupported"; r.error = "internal: %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-6))
    r.obs = ex.obs; r.assumed = ex.assumed; r.inlined = ex.inlined; r.loops = ex.loops
    r.time = time.time() - t0
    r.queries = smt.STAT["queries"] - q0; r.solver_time = smt.STAT["time"] - s0
    return r


def split(name):
    """"function#overload@case" -> (function, overload, case)"""
    name, _, k = name.partition("@")
    q, _, o = name.partition("#")
    return q, o, int(k) if k else None


def pick(db, c, overload=""):
    """the function the contract is for; overload names one of several (False: there is none)"""
    fs = [f for f in db.byq.get(c.q, []) if f.get("body") is not None]
    if overload:
        fs = [f for f in fs if c.overload(overload, f)]
        return fs[0] if fs else False
    if c.nparams is not None:
        fs = [f for f in fs if len(f["params"]) == c.nparams]
    return fs[0] if fs else None


def flat_trace(t):
    out = []
    while t:
        t, x = t
        out.append(x)
    return list(reversed(out))
