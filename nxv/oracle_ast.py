"""Executable specifications of the parsed tree: comparison with the tree the
grammar gives, nesting of ranges, well-formedness of diagnostics, scoping."""
from .oracle_lex import linecol
from .nixgen import N


def norm(x):
    """harness dump -> the shape nixgen builds"""
    if x is None:
        return None
    k = x["k"]
    l, r = x["r"][0], x["r"][3]
    n = norm

    def parts(ps):
        out = []
        for p in ps:
            if isinstance(p, str):
                if out and isinstance(out[-1], str):
                    out[-1] += p
                else:
                    out.append(p)
            else:
                out.append(n(p))
        return out
    if k == "ExprVar": return N(k, l, r, name=x["name"])
    if k == "ExprInt": return N(k, l, r, v=int(x["v"]))
    if k == "ExprFloat": return N(k, l, r, v=float.fromhex(x["v"]).hex())
    if k in ("ExprString", "ExprPath"): return N(k, l, r, parts=parts(x["parts"]) or [""])
    if k == "ExprSPath": return N(k, l, r, t=x["t"])
    if k == "ExprParen": return N(k, l, r, e=n(x["e"]))
    if k == "ExprAttrs": return N(k, l, r, rec=x["recm"] is not None, b=binds(x["b"]))
    if k == "Interpolation": return N(k, l, r, e=n(x["e"]))
    if k == "AttrName":
        if x["ak"] == 0: return N(k, l, r, ak="id", v=x["n"]["name"])
        if x["ak"] == 1: return N(k, l, r, ak="str", v=parts(x["n"]["parts"]) or [""])
        return N(k, l, r, ak="interp", v=n(x["n"]))
    if k == "Binding": return N(k, l, r, path=[n(a) for a in x["path"]["names"]], val=n(x["val"]))
    if k == "Inherit": return N(k, l, r, names=[n(a) for a in x["names"]], frm=n(x["from"]))
    if k == "ExprSelect": return N(k, l, r, e=n(x["e"]), path=path(x["path"]), df=n(x["def"]))
    if k == "ExprCall": return N(k, l, r, fn=n(x["fn"]), args=[n(a) for a in x["args"]])
    if k == "ExprList": return N(k, l, r, el=[n(a) for a in x["el"]])
    if k == "ExprLambda":
        a = x["arg"]
        nm = fm = None
        if a is not None:
            if a["name"]: nm = (a["name"]["name"], a["name"]["r"][0])
            if a["formals"]:
                f = a["formals"]
                ms = []
                for m in f["m"]:
                    if m["ell"]:
                        ms.append(N("Formal", m["r"][0], m["r"][3], name=None, np=None, df=None, ell=True))
                    elif m["name"]:
                        ms.append(N("Formal", m["r"][0], m["r"][3], name=m["name"]["name"], np=m["name"]["r"][0], df=n(m["def"]), ell=False))
                fm = N("Formals", f["r"][0], f["r"][3], m=ms)
        return N(k, l, r, name=nm, formals=fm, body=n(x["body"]))
    if k == "ExprBinOp": return N(k, l, r, op=x["op"]["op"], le=n(x["l"]), re=n(x["rh"]))
    if k == "ExprUnaryOp": return N(k, l, r, op=x["op"]["op"], e=n(x["e"]))
    if k == "ExprOpHasAttr": return N(k, l, r, e=n(x["e"]), path=path(x["path"]))
    if k == "ExprIf": return N(k, l, r, c=n(x["c"]), t=n(x["t"]), e=n(x["el"]))
    if k == "ExprAssert": return N(k, l, r, c=n(x["c"]), v=n(x["v"]))
    if k == "ExprLet": return N(k, l, r, b=binds(x["attrs"] and x["attrs"]["b"]), e=n(x["e"]))
    if k == "ExprLegacyLet": return N(k, l, r, b=binds(x["attrs"] and x["attrs"]["b"]))
    if k == "ExprWith": return N(k, l, r, w=n(x["w"]), e=n(x["e"]))
    return N(k, l, r)


def binds(b):
    return [] if b is None else [norm(x) for x in b["b"]]


def path(p):
    return None if p is None else [norm(x) for x in p["names"]]


def diff(a, b, where="program"):
    """first structural difference between expected a and actual b, as (is_range_only, text)"""
    if isinstance(a, dict) and isinstance(b, dict):
        if a["k"] != b["k"]:
            return False, "%s: expected %s, got %s" % (where, a["k"], b["k"])
        rng = None
        for f in a:
            if f in ("k", "l", "r"):
                continue
            if f == "np" or (a["k"] == "ExprLambda" and f == "name"):
                x, y = a[f], b.get(f)
                if f == "name":
                    if (x and x[0]) != (y and y[0]):
                        return False, "%s: lambda argument is %r, expected %r" % (where, y and y[0], x and x[0])
                    x, y = x and x[1], y and y[1]
                if x != y:
                    rng = rng or (True, "%s.%s is at %s, expected at %s" % (where, f, y, x))
                continue
            d = diff(a[f], b.get(f), where + "." + a["k"] + "." + f)
            if d and not d[0]:
                return d
            rng = rng or d
        if rng is None and a["k"] != "Formal" and (a["l"], a["r"]) != (b["l"], b["r"]):
            rng = (True, "%s (%s) spans [%d,%d), expected [%d,%d)" % (where, a["k"], b["l"], b["r"], a["l"], a["r"]))
        return rng
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return False, "%s: %d elements, expected %d" % (where, len(b), len(a))
        rng = None
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, "%s[%d]" % (where, i))
            if d and not d[0]:
                return d
            rng = rng or d
        return rng
    if a != b:
        return False, "%s: %s, expected %s" % (where, short(b), short(a))
    return None


def short(x):
    if isinstance(x, dict):
        return x["k"]
    return repr(x)[:80]


def walk(n):
    """every node of a normalised tree, pre-order"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            st.extend(reversed([v for k, v in x.items() if isinstance(v, (dict, list))]))
        elif isinstance(x, list):
            st.extend(reversed(x))


# ------------------------------------------------------------------- ranges
ORDERED = {"ExprList", "Binds", "AttrPath", "Formals"}


def check_cursor(s, c, what, out, lc):
    off, line, col = c
    if not 0 <= off <= len(s):
        out.append(({"P06", "P02", "P14"}, "%s: offset %d is outside the source (length %d)" % (what, off, len(s))))
        return False
    if lc(off) != (line, col):
        out.append(({"P02"}, "%s: offset %d reported at line %d column %d, is at %d:%d" % (what, off, line, col, *lc(off))))
    return True


def line_index(s):
    import bisect
    starts = [0] + [i + 1 for i, c in enumerate(s) if c == "\n"]

    def lc(o):
        i = bisect.bisect_right(starts, o) - 1
        return i, o - starts[i]
    return lc


def check_ranges(s, t, lc):
    """t: raw tree [name, l, lline, lcol, r, rline, rcol, children...]"""
    out = []
    st = [(t, None)]
    while st:
        x, par = st.pop()
        nm = x[0]
        l, r = x[1], x[4]
        what = "%s node" % nm
        check_cursor(s, x[1:4], what + " start", out, lc)
        check_cursor(s, x[4:7], what + " end", out, lc)
        if l > r:
            out.append(({"P06"}, "%s starts at %d after its end %d" % (what, l, r)))
        if par is not None and par[0] == "ExprAttrs" and nm == "Misc" and s.startswith("let", l):
            continue    # the keyword is shared by a let and the attribute set it desugars to; it belongs to the let
        if par is not None and not (par[1] <= l and r <= par[4]):
            out.append(({"P06"}, "%s [%d,%d) lies outside its parent %s [%d,%d)" % (what, l, r, par[0], par[1], par[4])))
        ch = x[7:]
        if nm in ORDERED:
            groups = [ch] if nm != "AttrPath" else [[c for c in ch if c[0] == "AttrName"], [c for c in ch if c[0] == "Dot"]]
            for g in groups:
                for a, b in zip(g, g[1:]):
                    if a[4] > b[1]:
                        out.append(({"P06"}, "children of %s overlap or are out of order: %s [%d,%d) then %s [%d,%d)" % (nm, a[0], a[1], a[4], b[0], b[1], b[4])))
        if out:
            return out
        st.extend((c, x) for c in ch)
    return out


# -------------------------------------------------------------- diagnostics
def check_diags(s, ds, lc):
    out = []
    for d in ds:
        k = d["k"]
        def rg(r, what):
            ok = check_cursor(s, r[0:3], what, out, lc) and check_cursor(s, r[3:6], what, out, lc)
            if ok and r[0] > r[3]:
                out.append(({"P14"}, "%s: range starts at %d after its end %d" % (what, r[0], r[3])))
        rg(d["r"], "diagnostic " + k)
        if len(d["args"]) != d["ph"]:
            out.append(({"P14"}, "diagnostic %s has %d arguments, its message %r has %d placeholders" % (k, len(d["args"]), d["tmpl"], d["ph"])))
        else:
            m = d["tmpl"]
            parts = m.split("{}")
            exp = parts[0]
            for a, p in zip(d["args"], parts[1:]):
                exp += a + p
            if d.get("msg") != exp:
                out.append(({"P14"}, "diagnostic %s renders as %r, expected %r" % (k, d.get("msg"), exp)))
        for nt in d["notes"]:
            rg(nt["r"], "note %s of %s" % (nt["k"], k))
            if nt["args"] != nt["ph"]:
                out.append(({"P14"}, "note %s of %s has %d arguments for %d placeholders" % (nt["k"], k, nt["args"], nt["ph"])))
        for fx in d["fixes"]:
            es = []
            for r, txt in fx["e"]:
                rg(r, "fix %r of %s" % (fx["m"], k))
                es.append((r[0], r[3]))
            es.sort()
            for a, b in zip(es, es[1:]):
                if a[1] > b[0] or (a == b and a[0] != a[1]):
                    out.append(({"P14"}, "fix %r of %s has overlapping edits [%d,%d) and [%d,%d)" % (fx["m"], k, a[0], a[1], b[0], b[1])))
    return out


# ------------------------------------------------------------------ scoping
GLOBALS = {"abort", "map", "import", "toString", "throw", "__add", "__filter", "__length", "true", "false", "null", "__currentTime", "__currentSystem",
           "__nixVersion", "__storeDir", "__langVersion", "__importNative", "__traceVerbose", "__nixPath", "derivation", "builtins", "__curPos"}
PREFIXED = {"add", "filter", "length"}
DS = {"with": 0, "let": 1, "arg": 2, "formal": 3, "argarg": 4, "formalarg": 5, "rec": 6, "builtin": 7}


def static_name(a):
    if a["ak"] == "id": return a["v"]
    if a["ak"] == "str" and all(isinstance(p, str) for p in a["v"]): return "".join(a["v"])
    return None


class Scope:
    """Reference name resolution on a (duplicate free) program"""
    def __init__(self, tree):
        self.uses = {}          # offset of variable -> (kind, definition or list of withs)
        self.defs = []          # [kind, name, key range, uses]
        self.diags = []         # (diagnostic short name, l, r)
        self.exp(tree, None)

    def new(self, kind, name, l, r):
        d = {"kind": kind, "name": name, "l": l, "r": r, "uses": 0}
        self.defs.append(d)
        return d

    def var(self, name, l, r, env):
        withs = []
        e = env
        while e is not None:
            par, tag, x = e
            if tag == "defs":
                if name in x:
                    x[name]["uses"] += 1
                    self.uses[l] = ("def", x[name])
                    return
            else:
                withs.append(x)
            e = par
        if name in GLOBALS:
            self.uses[l] = ("def", {"kind": "builtin"})
        elif withs:
            for w in withs:
                w["uses"] += 1
            self.uses[l] = ("with", withs)
        else:
            self.uses[l] = ("undef", None)
            self.diags.append(("sema-primop-needs-prefix" if name in PREFIXED else "sema-undefined-variable", l, r))

    def many(self, xs, env):
        for x in xs:
            self.exp(x, env)

    def names(self, path, env):
        for a in path or []:
            self.attrname(a, env)

    def attrname(self, a, env):
        if a["ak"] == "str":
            self.many([p for p in a["v"] if not isinstance(p, str)], env)
        elif a["ak"] == "interp":
            self.exp(a["v"], env)

    def binds(self, b, env, recursive, kind):
        """returns the environment of the body; evaluates the definitions"""
        inner = env
        scope = {}
        if recursive:
            for x in b:
                for a in ([x["path"][0]] if x["k"] == "Binding" else x["names"]):
                    n = static_name(a)
                    if n is not None and n not in scope:
                        scope[n] = self.new(kind, n, a["l"], a["r"])
            inner = (env, "defs", scope)
        for x in b:
            if x["k"] == "Binding":
                self.names(x["path"], inner)
                self.exp(x["val"], inner)
            elif x["frm"] is not None:
                if x["names"]:
                    self.exp(x["frm"], inner)
            else:
                for a in x["names"]:
                    n = static_name(a)
                    self.var(n, a["l"], a["r"], env)
        return inner, scope

    def exp(self, x, env):
        if x is None:
            return
        k = x["k"]
        if k == "ExprVar":
            self.var(x["name"], x["l"], x["r"], env)
        elif k in ("ExprString", "ExprPath"):
            self.many([p for p in x["parts"] if not isinstance(p, str)], env)
        elif k in ("ExprParen", "Interpolation", "ExprUnaryOp"):
            self.exp(x["e"], env)
        elif k == "ExprAttrs":
            inner, scope = self.binds(x["b"], env, x["rec"], "rec")
            if x["rec"] and not any(d["uses"] for d in scope.values()):
                self.diags.append(("sema-extra-rec", x["l"], x["l"] + 3))
        elif k == "ExprSelect":
            self.exp(x["e"], env)
            self.names(x["path"], env)
            self.exp(x["df"], env)
        elif k == "ExprCall":
            self.exp(x["fn"], env)
            self.many(x["args"], env)
        elif k == "ExprList":
            self.many(x["el"], env)
        elif k == "ExprLambda":
            sc = {}
            nm, fm = x["name"], x["formals"]
            fnames = {}
            for m in (fm["m"] if fm else []):
                if m["name"] is not None and m["name"] not in fnames:
                    fnames[m["name"]] = m
            if nm and nm[0] not in fnames:
                sc[nm[0]] = self.new("argarg" if fm else "arg", nm[0], nm[1], nm[1] + len(nm[0]))
            for n, m in fnames.items():
                sc[n] = self.new("formalarg" if nm else "formal", n, m["np"], m["np"] + len(n))
            e2 = (env, "defs", sc)
            for m in (fm["m"] if fm else []):
                self.exp(m["df"], e2)
            self.exp(x["body"], e2)
            for d in sc.values():
                if not d["uses"] and d["kind"] != "arg":
                    self.diags.append(({"argarg": "sema-unused-def-lambda-witharg-arg", "formal": "sema-unused-def-lambda-noarg-formal", "formalarg": "sema-unused-def-lambda-witharg-formal"}[d["kind"]], d["l"], d["r"]))
        elif k == "ExprBinOp":
            self.exp(x["le"], env)
            self.exp(x["re"], env)
        elif k == "ExprOpHasAttr":
            self.exp(x["e"], env)
            self.names(x["path"], env)
        elif k == "ExprIf":
            self.many([x["c"], x["t"], x["e"]], env)
        elif k == "ExprAssert":
            self.many([x["c"], x["v"]], env)
        elif k == "ExprLet":
            inner, scope = self.binds(x["b"], env, True, "let")
            self.exp(x["e"], inner)
            for d in scope.values():
                if not d["uses"]:
                    self.diags.append(("sema-unused-def-let", d["l"], d["r"]))
        elif k == "ExprLegacyLet":
            inner, scope = self.binds(x["b"], env, True, "rec")
            if not any(d["uses"] for d in scope.values()):
                self.diags.append(("sema-extra-rec", x["l"], x["l"] + 3))
        elif k == "ExprWith":
            self.exp(x["w"], env)
            w = {"kind": "with", "l": x["l"], "uses": 0}
            self.exp(x["e"], (env, "with", w))
            if not w["uses"]:
                self.diags.append(("sema-extra-with", x["l"], x["l"] + 4))


SCOPE_DIAGS = {"sema-undefined-variable", "sema-primop-needs-prefix", "sema-unused-def-let", "sema-unused-def-lambda-noarg-formal", "sema-unused-def-lambda-witharg-formal", "sema-unused-def-lambda-witharg-arg", "sema-extra-with", "sema-extra-rec"}


def check_scope(tree, full):
    """compare the analysis ('full' dump with semantic values) with the reference"""
    sc = Scope(tree)
    out = []
    got = {}
    for v in full["vars"]:
        got.setdefault(v["r"][0], []).append(v)
    for off, (kind, d) in sc.uses.items():
        vs = got.get(off)
        if not vs:
            out.append(({"P12"}, "the variable at %d was never looked up" % off))
            continue
        for v in vs:
            what = "variable %s at %d" % (v["name"], off)
            if v["look"] == 3:
                out.append(({"P12"}, what + " was never looked up"))
            elif kind == "undef":
                if v["look"] != 0:
                    out.append(({"P12"}, what + " is reported as bound, but nothing binds it"))
            elif kind == "with":
                if v["look"] != 1:
                    out.append(({"P12"}, what + " should come from `with`, look-up result is %s" % v["look"]))
                elif v["withs"] != [w["l"] for w in d]:
                    out.append(({"P12"}, what + " may come from the `with` at %s, recorded %s" % ([w["l"] for w in d], v["withs"])))
                elif not v["used"]:
                    out.append(({"P12"}, what + " is not recorded as a use of the `with` it resolves to"))
            else:
                if v["look"] != 2:
                    out.append(({"P12"}, what + " has a binder, look-up result is %s" % v["look"]))
                elif v["dsrc"] != DS[d["kind"]]:
                    out.append(({"P12"}, what + " resolves to a %s definition, expected %s" % ([k for k, i in DS.items() if i == v["dsrc"]], d["kind"])))
                elif d["kind"] != "builtin" and (v["dsyn"] is None or [v["dsyn"][0], v["dsyn"][3]] != [d["l"], d["r"]]):
                    out.append(({"P12"}, what + " resolves to the definition at %s, expected [%d,%d)" % (v["dsyn"], d["l"], d["r"])))
                elif not v["used"]:
                    out.append(({"P12"}, what + " is not among the uses of its definition"))
    if "defs" in full:
        exp = {}
        for d in sc.defs:
            exp[(d["l"], d["r"])] = sorted(o for o, (k, x) in sc.uses.items() if k == "def" and x is d)
        for r, src, uses, _ in full["defs"]:
            key = (r[0], r[3])
            if src == 0:
                e = sorted(o for o, (k, ws) in sc.uses.items() if k == "with" and any(w["l"] == r[0] for w in ws))
            else:
                e = exp.get(key)
            if e is None:
                out.append(({"P12"}, "a definition is recorded at [%d,%d) where the program defines nothing" % key))
            elif sorted(set(uses)) != e:
                out.append(({"P12"}, "the definition at [%d,%d) records uses at %s, expected %s" % (key[0], key[1], sorted(set(uses)), e)))
        have = {(r[0], r[3]) for r, _, _, _ in full["defs"]}
        for k in exp:
            if k not in have:
                out.append(({"P12"}, "no definition is recorded for the binder at [%d,%d)" % k))
    gd = sorted((d["k"], d["r"][0], d["r"][3]) for d in full["diags"] if d["k"] in SCOPE_DIAGS)
    ed = sorted(sc.diags)
    if gd != ed:
        miss = list(ed)
        extra = []
        for x in gd:
            if x in miss: miss.remove(x)
            else: extra.append(x)
        out.append(({"P13"}, "liveness diagnostics differ: missing %s, unexpected %s" % (miss, extra)))
    return out
