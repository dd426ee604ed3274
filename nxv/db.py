"""Program database: loads the extractor's JSON of one or more translation
units, interning types by canonical spelling and functions by signature."""
import json


class Type:
    __slots__ = ("s", "k", "w", "sg", "to", "q", "n", "targs", "const", "lam", "params", "ret")

    def __init__(self):
        self.s = ""; self.k = "other"; self.w = 0; self.sg = False; self.to = None
        self.q = None; self.n = None; self.targs = []; self.const = False; self.lam = None
        self.params = []; self.ret = None

    def __repr__(self):
        return "T<%s>" % self.s


class DB:
    def __init__(self):
        self.types = {}
        self.functions = {}      # key -> function object
        self.byq = {}            # qualified name -> [function]
        self.records = {}
        self.enums = {}
        self.globals = {}
        self.tables = {}       # variables of one file: their initial values
        self.ntu = 0
        self.lambdas = {}

    def load(self, path):
        with open(path) as f:
            d = json.load(f)
        tu = self.ntu
        self.ntu += 1
        ts = d["types"]
        out = [None] * len(ts)
        # two passes: create, then link
        for i, t in enumerate(ts):
            s = t["s"]
            if t.get("lambda"):
                s = "lambda#%d.%d" % (tu, t["lambda"])
            if "lambda" in s and not t.get("lambda"):
                s = "%d:%d:%s" % (tu, i, s)   # types mentioning closures are TU-local
            if s in self.types:
                out[i] = self.types[s]
                continue
            T = Type()
            T.s = s; T.k = t["k"]; T.w = t.get("w", 0); T.sg = t.get("sg", False)
            T.q = t.get("q"); T.n = t.get("n"); T.const = t.get("const", False)
            if t.get("lambda"):
                T.lam = (tu, t["lambda"])
            self.types[s] = T
            out[i] = T
        for i, t in enumerate(ts):
            T = out[i]
            if "to" in t and T.to is None:
                T.to = out[t["to"]]
            if "targs" in t and not T.targs:
                T.targs = [out[x] if isinstance(x, int) else x for x in t["targs"]]
            if "params" in t and not T.params:
                T.params = [out[x] for x in t["params"]]
                T.ret = out[t["ret"]]
        self._fix(d["functions"], out, tu)
        self._fix(d["records"], out, tu)
        self._fix(d["globals"], out, tu)
        self._shadowed(d)
        for f in d["functions"]:
            if f["key"] not in self.functions:
                self.functions[f["key"]] = f
                self.byq.setdefault(f["q"], []).append(f)
        for r in d["records"]:
            self.records.setdefault(r["n"], r)
        for e in d["enums"]:
            self.enums.setdefault(e["q"], e["c"])
        for g in d["globals"]:
            (self.tables if g.get("mut") else self.globals).setdefault(g["q"], g)

    def _fix(self, o, types, tu):
        """Replace type indices by Type objects and make ids TU-unique."""
        stack = [o]
        while stack:
            x = stack.pop()
            if isinstance(x, list):
                stack.extend(y for y in x if isinstance(y, (dict, list)))
                continue
            for k, v in x.items():
                if k in ("t", "ft", "dt", "to", "ret", "ct", "nt") and isinstance(v, int) and not isinstance(v, bool):
                    x[k] = types[v]
                elif k == "base" and isinstance(v, int):
                    x[k] = types[v]
                elif k in ("pt", "bases"):
                    x[k] = [types[i] for i in v]
                elif k == "id":
                    x[k] = (tu, v)
                elif k == "v" and x.get("k") in ("str", "int", "float", "bool"):
                    pass
                elif isinstance(v, (dict, list)):
                    stack.append(v)

    def _shadowed(self, d):
        """A field that hides one of a base class is renamed: an object is one flat record."""
        recs = {r["n"]: r for r in d["records"]}
        bases = {n: [b.n for b in r["bases"]] for n, r in recs.items()}
        up = {}

        def inherited(n):
            if n not in up:
                up[n] = set()
                for b in bases.get(n, ()):
                    r = recs.get(b) or self.records.get(b)
                    if r:
                        up[n] |= inherited(b) | {f["name"] for f in r["fields"]}
            return up[n]
        hid = set()
        for n, r in recs.items():
            for f in r["fields"]:
                if f["name"] and f["name"] in inherited(n):
                    hid.add((n, f["name"]))
                    f["name"] += "'"
        if not hid:
            return
        stack = [d["functions"]]
        while stack:
            x = stack.pop()
            if isinstance(x, list):
                stack.extend(y for y in x if isinstance(y, (dict, list)))
                continue
            if "inits" in x and "cls" in x:
                for i in x["inits"]:
                    if (x["cls"], i.get("field")) in hid:
                        i["field"] += "'"
            if x.get("k") == "member" and (x.get("cls"), x.get("name")) in hid:
                x["name"] += "'"
            stack.extend(v for v in x.values() if isinstance(v, (dict, list)))

    def fn(self, q, nparams=None, const=None):
        c = self.byq.get(q, [])
        if nparams is not None:
            c = [f for f in c if len(f["params"]) == nparams]
        if const is not None:
            c = [f for f in c if bool(f.get("constm")) == const]
        return c[0] if c else None

    def enum(self, q, name):
        return self.enums[q][name]
