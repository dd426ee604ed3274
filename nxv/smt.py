"""SMT layer: spec functions defined by ground unfolding, prover with back-end
fallback (z3 then cvc5), query accounting."""
import subprocess, tempfile, time, os
import z3

STAT = {"queries": 0, "time": 0.0, "cvc5": 0, "z3": 0, "unknown": 0}
TIMEOUT_MS = int(os.environ.get("NXV_TIMEOUT_MS", "8000"))


class SpecFun:
    """Uninterpreted function with a ground-unfolding definition.
    body(*args) returns a list of formulas true of f(*args)."""
    reg = {}

    def __init__(self, name, dom, rng, body=None):
        self.name = name
        self.f = z3.Function(name, *dom, rng)
        self.body = body
        SpecFun.reg[name] = self

    def __call__(self, *a):
        return self.f(*[z3.IntVal(x) if isinstance(x, int) and not isinstance(x, bool) else x for x in a])


OPAQUE = frozenset()      # names of functions used without their definition
_apps = {}     # ast id -> (term kept alive, tuple of spec app terms)
_inst = {}     # app id -> (app, list of formulas)


def spec_apps(t):
    key = t.get_id()
    r = _apps.get(key)
    if r is not None:
        return r[1]
    # iterative post-order
    stack = [t]
    while stack:
        x = stack[-1]
        k = x.get_id()
        if k in _apps:
            stack.pop()
            continue
        if z3.is_quantifier(x):
            _apps[k] = (x, ())
            stack.pop()
            continue
        ch = x.children()
        todo = [c for c in ch if c.get_id() not in _apps]
        if todo:
            stack.extend(todo)
            continue
        s = {}
        for c in ch:
            for a in _apps[c.get_id()][1]:
                s[a.get_id()] = a
        if z3.is_app(x) and x.num_args() > 0:
            nm = x.decl().name()
            if nm in SpecFun.reg and SpecFun.reg[nm].body is not None:
                s[k] = x
        _apps[k] = (x, tuple(s.values()))
        stack.pop()
    return _apps[key][1]


def instantiate(app):
    k = app.get_id()
    r = _inst.get(k)
    if r is None:
        sf = SpecFun.reg[app.decl().name()]
        fs = sf.body(*app.children())
        if not isinstance(fs, (list, tuple)):
            fs = [fs]
        r = (app, list(fs))
        _inst[k] = r
    return r[1]


def unfold(formulas, depth):
    """All definition instances needed up to `depth` rounds."""
    seen = {}
    out = []
    frontier = {}
    for f in formulas:
        for a in spec_apps(f):
            frontier[a.get_id()] = a
    for _ in range(depth):
        nxt = {}
        for k, a in frontier.items():
            if k in seen:
                continue
            seen[k] = a
            if a.decl().name() in OPAQUE:
                continue
            for g in instantiate(a):
                out.append(g)
                for b in spec_apps(g):
                    if b.get_id() not in seen:
                        nxt[b.get_id()] = b
        frontier = nxt
        if not frontier:
            break
    return out


def mksolver(timeout):
    s = z3.Solver()
    s.set("timeout", timeout)
    return s


def check(formulas, timeout=None):
    t0 = time.time()
    s = mksolver(timeout or TIMEOUT_MS)
    for f in formulas:
        s.add(f)
    r = s.check()
    STAT["queries"] += 1
    STAT["z3"] += 1
    STAT["time"] += time.time() - t0
    return r, s


def feasible(pc, depth=0):
    fs = list(pc)
    if depth:
        fs += unfold(fs, depth)
    r, _ = check(fs, 400)
    return r != z3.unsat


def cvc5_check(formulas, timeout_s):
    s = z3.Solver()
    for f in formulas:
        s.add(f)
    txt = s.to_smt2()
    txt = "(set-logic ALL)\n" + txt
    t0 = time.time()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
        p = f.name
    try:
        o = subprocess.run(["cvc5", "--tlimit=%d" % int(timeout_s * 1000), p], capture_output=True, text=True, timeout=timeout_s + 5)
        r = o.stdout.strip().split("\n")[0] if o.stdout else "unknown"
    except Exception:
        r = "unknown"
    finally:
        os.unlink(p)
    STAT["cvc5"] += 1
    STAT["queries"] += 1
    STAT["time"] += time.time() - t0
    return r


def prove(pc, goal, depth=2, timeout=None, use_cvc5=True):
    """Is pc |= goal?  returns ('ok'|'fail'|'unknown', model, backend)."""
    goal_s = z3.simplify(goal)
    if z3.is_true(goal_s):
        return "ok", None, "simplify"
    fs = list(pc) + [z3.Not(goal)]
    inst = unfold(fs, depth)
    r, s = check(fs + inst, timeout)
    if r == z3.unsat:
        return "ok", None, "z3"
    if r == z3.sat:
        return "fail", s.model(), "z3"
    if use_cvc5 and (timeout is None or timeout >= 5000):
        c = cvc5_check(fs + inst, (timeout or TIMEOUT_MS) / 1000.0)
        if c == "unsat":
            return "ok", None, "cvc5"
        if c == "sat":
            return "fail", None, "cvc5"
    STAT["unknown"] += 1
    return "unknown", None, "z3"


def guarded_apps(t, f, guard, out):
    """(guard, application of f) for every application inside t, with the conditions of the enclosing if-then-elses"""
    if z3.is_app(t):
        if t.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = t.children()
            guarded_apps(c, f, guard, out)
            guarded_apps(a, f, guard + [c], out)
            guarded_apps(b, f, guard + [z3.Not(c)], out)
            return
        if t.decl().name() == f.name and t.num_args() > 0:
            out.append((z3.And(*guard) if guard else z3.BoolVal(True), t))
        for c in t.children():
            guarded_apps(c, f, guard, out)


def fact_lemma(sf):
    """the facts stated next to the defining equation of a specification function follow from the equation by induction:
    (hypotheses, goal), or None when there are none.  The equation is the last formula of the body."""
    vs = [z3.Const("x%d" % i, sf.f.domain(i)) for i in range(sf.f.arity())]
    items = list(sf.body(*vs))
    eqn, facts = items[-1], items[:-1]
    app = sf(*vs)
    if not (z3.is_eq(eqn) and eqn.arg(0).eq(app)):
        raise ValueError("no defining equation: " + sf.name)
    if not facts:
        return None
    rec = []
    guarded_apps(eqn.arg(1), sf, [], rec)
    hyps = [eqn]
    for g, a in rec:
        for h in sf.body(*a.children())[:-1]:
            hyps.append(z3.Implies(g, h))
    return hyps, z3.And(*facts)
