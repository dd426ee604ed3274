"""Symbolic executor / VC generator over the extracted C++ AST."""
import z3, itertools, time
from .vals import *
from . import smt

STRQ = {"std::basic_string", "std::basic_string_view", "llvm::StringRef", "std::string", "std::__cxx11::basic_string"}
OPTQ = {"std::optional"}
VECQ = {"std::vector", "std::deque", "llvm::SmallVector", "llvm::SmallVectorImpl", "std::initializer_list", "llvm::ArrayRef", "std::stack", "std::queue", "std::array", "std::span", "boost::container::small_vector", "boost::container::vector", "boost::container::small_vector_base"}
PTRQ = {"std::shared_ptr", "std::unique_ptr", "std::weak_ptr"}
MAPQ = {"std::map", "std::unordered_map", "llvm::StringMap"}
SETQ = {"std::set", "std::unordered_set"}
BIG = 1 << 60
_cnt = itertools.count(1)


subarr = smt.SpecFun("subarr", [ARR, I, I], SEQ)
subarr.body = lambda a, o, n: [z3.If(n <= 0, subarr(a, o, n) == z3.Empty(SEQ), subarr(a, o, n) == z3.Concat(subarr(a, o, n - 1), z3.Unit(a[o + n - 1]))),
                               z3.Length(subarr(a, o, n)) == z3.If(n <= 0, 0, n)]


class _StrType:
    """std::string, as the key of an llvm::StringMap"""
    n = s = q = "std::basic_string"
    k = "rec"; targs = []; to = None; const = False; lam = None; w = None; sg = None


STRT = _StrType()


class State:
    __slots__ = ("store", "pc", "env", "this", "heap", "ghost", "trace", "dead")

    def __init__(self):
        self.store = {}; self.pc = []; self.env = {}; self.this = None
        self.heap = {}; self.ghost = {}; self.trace = (); self.dead = False

    def fork(self):
        s = State()
        s.store = dict(self.store); s.pc = list(self.pc); s.env = dict(self.env); s.this = self.this
        s.heap = dict(self.heap); s.ghost = dict(self.ghost); s.trace = self.trace
        return s

    def assume(self, f):
        if z3.is_true(f):
            return
        self.pc.append(f)


class Obligation:
    __slots__ = ("fn", "kind", "line", "tags", "status", "model", "backend", "trace", "detail", "time", "goal", "state")

    def __init__(self, fn, kind, line, tags):
        self.fn = fn; self.kind = kind; self.line = line; self.tags = tags
        self.status = None; self.model = None; self.backend = None; self.trace = (); self.detail = ""; self.time = 0

    def name(self):
        return "%s: %s (line %s)" % (self.fn, self.kind, self.line)


class Budget(Exception):
    pass


def select(a, i):
    if z3.is_quantifier(a):      # lambda
        return z3.substitute_vars(a.body(), i if z3.is_expr(i) else z3.IntVal(i))
    return z3.Select(a, i)


class Exec:
    def __init__(self, db, contracts=None, models=None, spec=None):
        self.db = db
        self._lk = {}
        self.contracts = contracts or {}
        self.models = models
        self.spec = spec
        self.obs = []
        self.quiet = 0
        self.curfn = None
        self.depth = 0
        self.loctype = {}
        self.locname = {}
        self.deadline = None
        self.loop_depth = 0
        self.maxpaths = 4000
        self.covers = 0
        self.loops = []
        self.assumed = set()      # library models / contracts used
        self.inlined = set()
        self.spec_depth = 2
        self.failed_keys = set()
        self.callstack = []
        self.dropped = []
        self.loop_cache = {}

    # ---------------------------------------------------------------- basics
    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Budget("time budget for %s exhausted" % self.curfn)

    def newloc(self, st, val, t=None, name=None):
        n = next(_cnt)
        st.store[n] = val
        self.loctype[n] = t
        if name:
            self.locname[n] = name
        return LV(n, (), t)

    def const(self, name, sort):
        return z3.Const("%s!%d" % (name, next(_cnt)), sort)

    def heapclass(self, T):
        if T is None or T.k != "rec":
            return False
        r = self.db.records.get(T.n)
        if r is None:
            return False
        if r["n"] in self.spec.value_classes:
            return False
        return r["poly"] or r["n"] in self.spec.heap_classes or self._baseheap(r)

    def _baseheap(self, r):
        for b in r["bases"]:
            if self.heapclass(b):
                return True
        return False

    def int_range(self, T):
        if T.k == "char" or T.k == "int" or T.k == "enum":
            w = T.w or 32
            if T.sg:
                return -(1 << (w - 1)), (1 << (w - 1)) - 1
            return 0, (1 << w) - 1
        return None

    def rng(self, T, t):
        if T.k == "enum" and T.q in self.db.enums and self.db.enums[T.q]:
            vs = self.db.enums[T.q].values()
            return z3.And(t >= min(vs), t <= max(vs))
        lo, hi = self.int_range(T)
        if hi > BIG and not T.sg:
            # size_t-like: keep the exact machine range
            return z3.And(t >= 0, t <= hi)
        return z3.And(t >= lo, t <= hi)

    # --------------------------------------------------------------- shapes
    def build(self, T, mk, path, st, depth=0):
        """Build a symbolic value of type T from leaves mk(path, sort)."""
        if depth > 8:
            raise Unsupported("type nesting: " + T.s)
        if self.spec:
            r = self.spec.build_hook(self, T, mk, path, st)
            if r is not None:
                return r
        k = T.k
        if k == "bool":
            return mk(path, B)
        if k in ("int", "char", "enum"):
            t = mk(path, I)
            if st is not None:
                st.assume(self.rng(T, t))
            return t
        if k == "float":
            return mk(path, FLT)
        if k in ("ptr", "ref", "rref"):
            t = mk(path, I)
            return t
        if k == "rec":
            q = T.q
            if q in STRQ:
                t = mk(path, SEQ)
                if st is not None:
                    st.assume(z3.Length(t) < BIG)
                return Str.seq(t)
            if q in OPTQ:
                return Opt(mk(path + ".has", B), self.build(T.targs[0], mk, path + ".val", st, depth + 1), T.targs[0])
            if q == "llvm::Expected":
                return Opt(mk(path + ".has", B), self.build(T.targs[0], mk, path + ".val", st, depth + 1), T.targs[0], "expected")
            if q == "llvm::Error":
                return Rec("llvm::Error", {"fail": mk(path + ".fail", B)})
            if q in VECQ:
                et = T.targs[0]
                ln = mk(path + ".len", I)
                if st is not None:
                    st.assume(z3.And(ln >= 0, ln < BIG))
                data = {p: mk(path + ".[]" + p, z3.ArraySort(I, s)) for p, s in self.leaves(et)}
                return Vec(ln, data, et, q)
            if q in MAPQ:
                kt, et = (STRT, T.targs[0]) if q == "llvm::StringMap" else (T.targs[0], T.targs[1])
                ks = self.leaves(kt)[0][1]
                return Map(mk(path + ".has", z3.ArraySort(ks, B)),
                           {p: mk(path + ".{}" + p, z3.ArraySort(ks, s)) for p, s in self.leaves(et)}, kt, et, q)
            if q in SETQ:
                kt = T.targs[0]
                ks = self.leaves(kt)[0][1]
                return Map(mk(path + ".has", z3.ArraySort(ks, B)), {}, kt, None, q)
            if q in PTRQ:
                return mk(path, I)
            if q == "std::pair":
                return Rec("std::pair", {"first": self.build(T.targs[0], mk, path + ".first", st, depth + 1),
                                         "second": self.build(T.targs[1], mk, path + ".second", st, depth + 1)})
            r = self.db.records.get(T.n)
            if r is not None:
                f = {}
                for b in r["bases"]:
                    bv = self.build(b, mk, path, st, depth + 1)
                    if isinstance(bv, Rec):
                        f.update(bv.f)
                for fd in r["fields"]:
                    f[fd["name"]] = self.build(fd["t"], mk, path + "." + fd["name"], st, depth + 1)
                return Rec(T.n, f)
        return mk(path, OPQ)

    def leaves(self, T):
        out = []

        def mk(p, s):
            out.append((p, s))
            return z3.Const("leaf!" + p, s)
        self.build(T, mk, "", None)
        return out

    def fresh(self, T, name, st):
        return self.build(T, lambda p, s: self.const(name + p, s), "", st)

    def leafmap(self, v, path=""):
        """value -> {path: term} matching build()'s naming."""
        out = {}
        self._leafmap(v, path, out)
        return out

    def _leafmap(self, v, path, out):
        if isinstance(v, Rec):
            if v.cls == "llvm::Error":
                out[path + ".fail"] = v.f["fail"]
                return
            for k, x in v.f.items():
                self._leafmap(x, path + "." + k, out)
        elif isinstance(v, Opt):
            out[path + ".has"] = v.has
            self._leafmap(v.val, path + ".val", out)
        elif isinstance(v, Str):
            out[path] = self.as_seq(v)
        elif isinstance(v, Vec):
            out[path + ".len"] = v.len
            for p, a in v.data.items():
                out[path + ".[]" + p] = a
        elif isinstance(v, Map):
            out[path + ".has"] = v.has
            for p, a in v.data.items():
                out[path + ".{}" + p] = a
        elif isinstance(v, Ptr):
            if v.lv is None:
                out[path] = iv(0)
            else:
                raise Unsupported("pointer to local stored in a container")
        elif v is None or isinstance(v, (Clo, FnRef, It, MIt, LV, HLV, Unit)):
            out[path] = v
        else:
            out[path] = v

    def as_seq(self, v):
        if v is None:
            raise Unsupported("uninitialised string")
        b = v.base
        if b[0] == "seq":
            if z3.is_int_value(simp(v.off)) and ival(simp(v.off)) == 0 and simp(v.len).eq(simp(z3.Length(b[1]))):
                return b[1]
            return z3.Extract(b[1], v.off, v.len)
        c = v.concrete()
        if c is not None:
            if len(c) == 0:
                return z3.Empty(SEQ)
            us = [z3.Unit(iv(x - 256 if x > 127 else x)) for x in c]
            return us[0] if len(us) == 1 else z3.Concat(*us)
        if b[0] == "uf":
            return self.subfn(b)(v.off, v.len)
        if b[0] == "arr":
            return subarr(b[1], v.off, v.len)
        raise Unsupported("substring of a literal with symbolic bounds")

    _subs = {}

    def subfn(self, base):
        nm = "sub_" + base[1]
        if nm not in self._subs:
            ch = base[2]
            sf = smt.SpecFun(nm, [I, I], SEQ)

            def body(o, n, sf=sf, ch=ch):
                return [z3.If(n <= 0, sf(o, n) == z3.Empty(SEQ),
                              sf(o, n) == z3.Concat(sf(o, n - 1), z3.Unit(ch(o + n - 1)))),
                        z3.Length(sf(o, n)) == z3.If(n <= 0, 0, n)]
            sf.body = body
            self._subs[nm] = sf
        return self._subs[nm]

    # --------------------------------------------------------- load / store
    def load(self, lv, st):
        if isinstance(lv, HLV):
            return self.hload(lv, st)
        if not isinstance(lv, LV):
            return lv
        v = st.store[lv.root]
        return self.nav(v, lv.path, st, lv)

    def nav(self, v, path, st, lv=None):
        for i, p in enumerate(path):
            if v is None:
                raise Unsupported("read of uninitialised object")
            if p[0] == "f":
                if isinstance(v, Rec):
                    if p[1] not in v.f:
                        raise Unsupported("no field %s in %s" % (p[1], v.cls))
                    v = v.f[p[1]]
                else:
                    raise Unsupported("field access on %r" % type(v).__name__)
            elif p[0] == "o":
                v = v.val
            elif p[0] == "i":
                v = self.vec_get(v, p[1], st)
            elif p[0] == "m":
                v = self.map_get(v, p[1], st)
        return v

    def vec_get(self, v, idx, st):
        if isinstance(v, Str):
            return v.at(idx)
        if isinstance(v, tuple):
            return v[ival(simp(idx))]
        x = self.build(v.et, lambda p, s: select(v.data[p], idx), "", st)
        if st is not None:
            self.spec.elem_read(self, v, idx, x, st)
        return x

    def vec_set(self, v, idx, val):
        lm = self.leafmap(val)
        data = {}
        for p, a in v.data.items():
            if p not in lm:
                raise Unsupported("container element leaf %s missing" % p)
            data[p] = z3.Store(a, idx, lm[p])
        return Vec(v.len, data, v.et, v.q)

    def map_get(self, v, key, st):
        return self.build(v.et, lambda p, s: z3.Select(v.data[p], key), "", st)

    def store(self, lv, val, st):
        if isinstance(lv, HLV):
            return self.hstore(lv, val, st)
        root = st.store[lv.root]
        st.store[lv.root] = self.upd(root, lv.path, val, st)

    def upd(self, v, path, val, st):
        if not path:
            return val
        p = path[0]
        if p[0] == "f":
            if v is None:
                raise Unsupported("store to field of uninitialised object")
            if not isinstance(v, Rec):
                raise Unsupported("field store on %r" % type(v).__name__)
            return v.with_(p[1], self.upd(v.f.get(p[1]), path[1:], val, st))
        if p[0] == "o":
            return Opt(v.has, self.upd(v.val, path[1:], val, st), v.et, v.kind)
        if p[0] == "i":
            if isinstance(v, Str):
                # write one byte of a string
                if v.base[0] == "arr":
                    return Str(("arr", z3.Store(v.base[1], simp(v.off + p[1]), val)), v.off, v.len)
                s = self.as_seq(v)
                n = z3.Concat(z3.Extract(s, 0, p[1]), z3.Unit(val), z3.Extract(s, p[1] + 1, v.len - p[1] - 1))
                return Str.seq(n)
            if isinstance(v, tuple):
                k = ival(simp(p[1]))
                l = list(v)
                l[k] = self.upd(v[k], path[1:], val, st)
                return tuple(l)
            e = self.vec_get(v, p[1], st)
            return self.vec_set(v, p[1], self.upd(e, path[1:], val, st))
        if p[0] == "m":
            e = self.map_get(v, p[1], st)
            lm = self.leafmap(self.upd(e, path[1:], val, st))
            return Map(v.has, {q: z3.Store(a, p[1], lm[q]) for q, a in v.data.items()}, v.kt, v.et, v.q)
        raise Unsupported("store path")

    def hname(self, cls, path):
        return cls + "." + ".".join(path)

    def ismut(self, nm, cls):
        """is this field of heap objects one that changes"""
        m = self.spec.mutable_heap
        if nm in m or cls in m:
            return True
        return any(nm.startswith(x + ".") for x in m)

    def init_heap(self, st):
        """every mutable field has its array from the start: what a loop or a callee changes is then seen to change"""
        for m in sorted(self.spec.mutable_heap):
            r = self.db.records.get(m)
            todo = [(m, fd["name"], fd["t"]) for fd in r["fields"]] if r else []
            if not r:
                c, _, f = m.rpartition(".")
                r = self.db.records.get(c)
                todo = [(c, f, fd["t"]) for fd in (r["fields"] if r else []) if fd["name"] == f]
            for c, f, t in todo:
                try:
                    ls = self.leaves(t)
                except Unsupported:
                    continue
                for p, srt in ls:
                    key = c + "." + f + p
                    if key not in st.heap:
                        st.heap[key] = z3.Const("H!" + key, z3.ArraySort(I, srt))

    def hload(self, lv, st):
        if not lv.path:
            raise Unsupported("whole-object read of heap class " + str(lv.cls))
        if lv.t is None:
            raise Unsupported("untyped heap read")
        nm = self.hname(lv.cls, lv.path)

        def mk(p, s):
            key = nm + p
            if key in st.heap:
                return z3.Select(st.heap[key], lv.ref)
            if self.ismut(nm, lv.cls):
                a = z3.Const("H!" + key, z3.ArraySort(I, s))
                st.heap[key] = a
                return z3.Select(a, lv.ref)
            return z3.Function("F!" + key, I, s)(lv.ref)
        v = self.build(lv.t, mk, "", st)
        self.spec.heap_read(self, lv, v, st)
        return v

    def hstore(self, lv, val, st):
        nm = self.hname(lv.cls, lv.path)
        lm = self.leafmap(val)
        if not self.ismut(nm, lv.cls):
            raise Unsupported("write to immutable heap field " + nm)
        for p, t in lm.items():
            key = nm + p
            a = st.heap.get(key)
            if a is None:
                a = z3.Const("H!" + key, z3.ArraySort(I, t.sort()))
            st.heap[key] = z3.Store(a, lv.ref, t)

    # ----------------------------------------------------------- obligations
    def ob(self, st, cond, kind, line, tags=("safety",), assume=True):
        if st.dead:
            return
        if isinstance(cond, bool):
            cond = z3.BoolVal(cond)
        if not self.quiet:
            o = Obligation(self.curfn, kind, line, tuple(tags))
            t0 = time.time()
            self.tick()
            key = (kind, line)
            if key in self.failed_keys:
                # already failing at this site: record nothing more for it
                if assume:
                    st.assume(cond)
                return
            s, m, b = smt.prove(st.pc, cond, self.spec_depth)
            o.status = s; o.model = m; o.backend = b; o.time = time.time() - t0
            o.trace = st.trace
            if s != "ok":
                self.failed_keys.add(key)
                o.goal = cond; o.state = st
            self.obs.append(o)
        if assume:
            st.assume(cond)

    def obs_batch(self, st, items, line):
        """items: [(name, formula, tags)]; one query for all, split on failure"""
        if st.dead or self.quiet:
            return
        todo = [(n, g, t) for n, g, t in items if (n, line) not in self.failed_keys]
        if not todo:
            return
        t0 = time.time()
        self.tick()
        s, m, b = smt.prove(st.pc, z3.And(*[g for _, g, _ in todo]), self.spec_depth, use_cvc5=False)
        if s == "ok":
            dt = (time.time() - t0) / len(todo)
            for n, g, t in todo:
                o = Obligation(self.curfn, n, line, tuple(t))
                o.status = s; o.backend = b; o.trace = st.trace; o.time = dt
                self.obs.append(o)
            return
        for n, g, t in todo:
            self.ob(st, g, n, line, t, assume=False)

    def provable(self, st, cond, depth=1, timeout=1500):
        return smt.prove(st.pc, cond, depth, timeout, use_cvc5=False)[0] == "ok"

    # ------------------------------------------------------------- branching
    def branch(self, c, st, line=None):
        """split on boolean term -> [(True, st1), (False, st2)] (feasible ones)"""
        self.tick()
        c = simp(c)
        if z3.is_true(c):
            return [(True, st)]
        if z3.is_false(c):
            return [(False, st)]
        nc = z3.Not(c)
        if not smt.feasible(st.pc + [c], self.feas_depth):
            st.assume(nc)
            return [(False, st)]
        if not smt.feasible(st.pc + [nc], self.feas_depth):
            st.assume(c)
            return [(True, st)]
        s2 = st.fork()
        st.assume(c); st.trace = (st.trace, (line, True))
        s2.assume(nc); s2.trace = (s2.trace, (line, False))
        return [(True, st), (False, s2)]

    feas_depth = 0

    # ---------------------------------------------------------- expressions
    def rv(self, e, st):
        """evaluate as value: [(val, st)]"""
        k = e["k"]
        m = getattr(self, "rv_" + k.replace("?", "unk"), None)
        if m is None:
            # glvalue expression: load
            if e.get("vc") in ("l", "x"):
                return [(self.load(l, s), s) for l, s in self.lv(e, st)]
            raise Unsupported("expression %s (%s)" % (k, e.get("cls")))
        return m(e, st)

    def lv(self, e, st):
        k = e["k"]
        m = getattr(self, "lv_" + k, None)
        if m is not None:
            return m(e, st)
        # value: put in temporary
        out = []
        for v, s in self.rv(e, st):
            if isinstance(v, (LV, HLV)):
                out.append((v, s))
            else:
                out.append((self.newloc(s, v, e["t"]), s))
        return out

    def seq(self, items, st, f):
        """evaluate items with f in order -> [(list, st)]"""
        res = [([], st)]
        for it in items:
            nr = []
            for vs, s in res:
                for v, s2 in f(it, s):
                    nr.append((vs + [v], s2))
            res = nr
        return res

    def rv_int(self, e, st):
        return [(iv(int(e["v"])), st)]

    def rv_bool(self, e, st):
        return [(z3.BoolVal(bool(e["v"])), st)]

    def rv_float(self, e, st):
        return [(z3.Const("flt!%r" % e["v"], FLT), st)]

    def rv_null(self, e, st):
        return [(iv(0), st)]

    def rv_zero(self, e, st):
        return [(self.default(e["t"], st), st)]

    def rv_str(self, e, st):
        return [(Str.lit(bytes(e["v"])), st)]

    def lv_str(self, e, st):
        return [(self.newloc(st, Str.lit(bytes(e["v"])), e["t"]), st)]

    def rv_unk(self, e, st):
        raise Unsupported("expression " + str(e.get("cls")))

    def lv_ref(self, e, st):
        if e["d"] == "enum":
            return [(self.newloc(st, iv(e["v"]), e["t"]), st)]
        if e["d"] == "fn":
            return [(self.newloc(st, FnRef(e), e["t"]), st)]
        if e["id"] in st.env:
            x = st.env[e["id"]]
            return [(x, st)]
        if e["d"] == "global" or "q" in e:
            return self.global_lv(e, st)
        raise Unsupported("reference to %s not in scope" % e["name"])

    def global_lv(self, e, st):
        q = e.get("q")
        g = self.db.globals.get(q)
        if g is None:
            if self.models and q in self.models.globals:
                self.global_type = e["t"]
                return [(self.newloc(st, self.models.globals[q](self, st), e["t"]), st)]
            raise Unsupported("global " + str(q))
        out = []
        for v, s in self.rv_init(g["t"], g["init"], st):
            out.append((self.newloc(s, v, g["t"]), s))
        return out

    def rv_ref(self, e, st):
        if e["d"] == "enum":
            return [(iv(e["v"]), st)]
        if e["d"] == "fn":
            return [(FnRef(e), st)]
        return [(self.load(l, s), s) for l, s in self.lv_ref(e, st)]

    def lv_this(self, e, st):
        return [(st.this, st)]

    def rv_this(self, e, st):
        th = st.this
        if isinstance(th, HLV) and not th.path:
            return [(th.ref, st)]
        return [(Ptr(th), st)]

    def lv_member(self, e, st):
        out = []
        for l, s in self.obj_lv(e["base"], e["arrow"], st, e.get("line")):
            out.append((self.field_of(l, e["name"], e.get("cls"), e.get("ft") or e["t"]), s))
        # reference-typed fields: follow
        ft = e.get("ft")
        if ft is not None and ft.k in ("ref", "rref"):
            res = []
            for l, s in out:
                v = self.load(l, s)
                res.append((self.deref_ref(v, ft.to, s), s))
            return res
        return out

    def deref_ref(self, v, T, st):
        if isinstance(v, (LV, HLV)):
            return v
        if isinstance(v, Ptr):
            return v.lv
        if z3.is_expr(v) and T.k == "rec":
            return HLV(v, T.n, (), T)
        raise Unsupported("reference field")

    def rv_member(self, e, st):
        if e.get("vc") == "r":
            # member of prvalue
            out = []
            for v, s in self.rv(e["base"], st):
                out.append((self.nav(v, (("f", e["name"]),), s), s))
            return out
        return [(self.load(l, s), s) for l, s in self.lv_member(e, st)]

    def field_of(self, l, name, cls, t):
        if isinstance(l, HLV):
            return HLV(l.ref, cls if not l.path else l.cls, l.path + (name,), t)
        return l.field(name, t)

    def obj_lv(self, base, arrow, st, line=None):
        """l-value of the object of a member access/call"""
        if not arrow:
            if base.get("vc") == "r" and base["k"] != "this":
                return self.lv(base, st)
            return self.lv(base, st)
        out = []
        for v, s in self.rv(base, st):
            out.append((self.deref(v, base["t"].to if base["t"].to else None, s, line, check=base["k"] != "this"), s))
        return out

    def deref(self, v, T, st, line, check=True):
        if isinstance(v, (LV, HLV)):
            return v
        if isinstance(v, Ptr):
            if v.lv is None:
                self.ob(st, z3.BoolVal(False), "null pointer dereference", line)
                st.dead = True
                raise Unsupported("null dereference")
            return v.lv
        if isinstance(v, It):
            return self.it_deref(v, st, line)
        if isinstance(v, MIt):
            return v
        if z3.is_expr(v) and v.sort() == I:
            if check:
                self.ob(st, v != 0, "pointer is not null", line)
            return HLV(v, T.n if T is not None else None, (), T)
        raise Unsupported("dereference of %r" % type(v).__name__)

    def it_deref(self, it, st, line):
        c = it.cont
        v = self.load(c, st) if isinstance(c, (LV, HLV)) else c
        n = v.len
        p = it.pos()
        self.ob(st, z3.And(p >= 0, p < n), "iterator in range", line)
        if isinstance(v, Str):
            st.assume(z3.And(v.at(p) >= -128, v.at(p) <= 127))
        if isinstance(c, LV):
            et = v.et if isinstance(v, Vec) else None
            return c.index(p, et)
        if isinstance(c, HLV):
            return self.newloc(st, self.vec_get(v, p, st), v.et if isinstance(v, Vec) else None)
        return self.newloc(st, self.vec_get(v, p, st))

    def lv_mat(self, e, st):
        out = []
        for v, s in self.rv(e["e"], st):
            if isinstance(v, (LV, HLV)):
                out.append((v, s))
            else:
                out.append((self.newloc(s, v, e["t"]), s))
        return out

    def rv_mat(self, e, st):
        return self.rv(e["e"], st)

    def lv_index(self, e, st):
        out = []
        for b, s in self.rv(e["base"], st):
            for i, s2 in self.rv(e["i"], s):
                if isinstance(b, Str):
                    # pointer to bytes / literal
                    self.ob(s2, z3.And(i >= 0, i <= b.len), "array index in range", e.get("line"))
                    out.append((self.newloc(s2, b.at(i), e["t"]), s2))
                elif isinstance(b, It):
                    out.append((self.it_deref(It(b.cont, b.idx + i), s2, e.get("line")), s2))
                elif isinstance(b, Ptr):
                    v = self.load(b.lv, s2)
                    n = v.len if isinstance(v, Vec) else iv(len(v)) if isinstance(v, tuple) else None
                    if n is not None:
                        self.ob(s2, z3.And(i >= 0, i < n), "array index in range", e.get("line"))
                    out.append((b.lv.index(i, e["t"]), s2))
                else:
                    raise Unsupported("subscript")
        return out

    def rv_cast(self, e, st):
        ck = e["ck"]
        if ck == "LValueToRValue":
            return [(self.load(l, s), s) for l, s in self.lv(e["e"], st)]
        if ck in ("NoOp", "ConstructorConversion", "UserDefinedConversion", "FunctionToPointerDecay", "BuiltinFnToFnPtr"):
            if e.get("vc") in ("l", "x"):
                return [(self.load(l, s), s) for l, s in self.lv(e["e"], st)]
            rs = self.rv(e["e"], st)
            if ck == "BaseToDerived" and self.spec:
                for v, s in rs:
                    self.spec.downcast(self, e["t"], v, s, e.get("line"))
            return rs
        if ck == "ArrayToPointerDecay":
            out = []
            for l, s in self.lv(e["e"], st):
                v = self.load(l, s)
                if isinstance(v, Str):
                    out.append((v, s))
                else:
                    out.append((Ptr(l), s))
            return out
        if ck == "IntegralCast":
            return [(self.conv(v, e["e"]["t"], e["t"], s), s) for v, s in self.rv(e["e"], st)]
        if ck == "IntegralToBoolean":
            return [(v != 0, s) for v, s in self.rv(e["e"], st)]
        if ck == "PointerToBoolean":
            return [(self.nonnull(v), s) for v, s in self.rv(e["e"], st)]
        if ck == "NullToPointer":
            return [(iv(0), st)]
        if ck == "ToVoid":
            return [(UNIT, s) for v, s in (self.lv(e["e"], st) if e["e"].get("vc") in ("l", "x") else self.rv(e["e"], st))]
        if ck in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "BitCast"):
            if e.get("vc") in ("l", "x"):
                return [(self.load(l, s), s) for l, s in self.lv(e["e"], st)]
            return self.rv(e["e"], st)
        if ck in ("IntegralToFloating", "FloatingCast", "FloatingToIntegral"):
            out = []
            for v, s in self.rv(e["e"], st):
                so = FLT if e["t"].k == "float" else I
                out.append((z3.Function("cast_%s_%s" % (ck, e["t"].s), v.sort(), so)(v), s))
            return out
        if ck == "Dynamic":
            raise Unsupported("dynamic_cast")
        raise Unsupported("cast " + ck)

    def lv_cast(self, e, st):
        ck = e["ck"]
        if ck in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "UserDefinedConversion", "ConstructorConversion", "LValueBitCast"):
            out = []
            for l, s in self.lv(e["e"], st):
                if isinstance(l, HLV) and not l.path:
                    if ck == "BaseToDerived" and self.spec:
                        self.spec.downcast(self, e["t"], l, s, e.get("line"))
                    l = HLV(l.ref, e["t"].n, (), e["t"])
                out.append((l, s))
            return out
        out = []
        for v, s in self.rv_cast(e, st):
            out.append((self.newloc(s, v, e["t"]), s))
        return out

    def nonnull(self, v):
        if isinstance(v, Ptr):
            return z3.BoolVal(v.lv is not None)
        if isinstance(v, (It, Str, LV, HLV, Clo, FnRef)):
            return z3.BoolVal(True)
        return v != 0

    def conv(self, v, T1, T2, st):
        """integral conversion with C++ modular semantics"""
        if z3.is_expr(v) and v.sort() == B:
            return z3.If(v, iv(1), iv(0))
        if not (z3.is_expr(v) and v.sort() == I):
            raise Unsupported("integral cast of %r" % type(v).__name__)
        if T2.k == "bool":
            return v != 0
        r1, r2 = self.int_range(T1) if T1.k != "bool" else (0, 1), self.int_range(T2)
        if r1[0] >= r2[0] and r1[1] <= r2[1]:
            return v
        return self.wrap(v, T2, st)

    def wrap(self, v, T, st):
        lo, hi = self.int_range(T)
        v = simp(v)
        if is_const_int(v):
            n = ival(v)
            m = hi - lo + 1
            return iv((n - lo) % m + lo)
        c = z3.And(v >= lo, v <= hi)
        if self.provable(st, c):
            return v
        m = hi - lo + 1
        return (v - lo) % m + lo

    def rv_unop(self, e, st):
        op = e["op"]
        if op in ("++", "--"):
            out = []
            for l, s in self.lv(e["e"], st):
                v = self.load(l, s)
                if isinstance(v, It):
                    nv = v.plus(1 if op == "++" else -1)
                elif isinstance(v, Str):
                    nv = Str(v.base, v.off + 1, v.len - 1) if op == "++" else Str(v.base, v.off - 1, v.len + 1)
                else:
                    nv = self.arith("+" if op == "++" else "-", v, iv(1), e["e"]["t"], s, e.get("line"))
                self.store(l, nv, s)
                if e["post"]:
                    out.append((v, s))
                else:
                    out.append((l if e.get("vc") == "l" else nv, s))
            return out
        if op == "!":
            return [(z3.Not(v), s) for v, s in self.rv(e["e"], st)]
        if op == "-":
            return [(self.arith("-", iv(0), v, e["t"], s, e.get("line")), s) for v, s in self.rv(e["e"], st)]
        if op == "+":
            return self.rv(e["e"], st)
        if op == "~":
            out = []
            for v, s in self.rv(e["e"], st):
                out.append((self.wrap(-v - 1, e["t"], s), s))
            return out
        if op == "&":
            out = []
            for l, s in self.lv(e["e"], st):
                if isinstance(l, HLV) and not l.path:
                    out.append((l.ref, s))
                else:
                    out.append((Ptr(l), s))
            return out
        if op == "*":
            return [(self.load(l, s), s) for l, s in self.lv_unop(e, st)]
        if op == "__extension__":
            return self.rv(e["e"], st)
        raise Unsupported("unary " + op)

    def lv_unop(self, e, st):
        op = e["op"]
        if op == "*":
            out = []
            for v, s in self.rv(e["e"], st):
                if isinstance(v, Str):
                    self.ob(s, v.len >= 1, "pointer dereference in range", e.get("line"))
                    out.append((self.newloc(s, v.at(iv(0)), e["t"]), s))
                else:
                    out.append((self.deref(v, e["t"], s, e.get("line"), check=e["e"]["k"] != "this"), s))
            return out
        out = []
        for v, s in self.rv_unop(e, st):
            out.append((v if isinstance(v, (LV, HLV)) else self.newloc(s, v, e["t"]), s))
        return out

    def arith(self, op, a, b, T, st, line):
        if isinstance(a, It) or isinstance(b, It):
            if op == "-" and isinstance(a, It) and isinstance(b, It):
                return (a.idx - b.idx) * a.step
            if op == "+":
                return a.plus(b) if isinstance(a, It) else b.plus(a)
            if op == "-":
                return a.plus(-b)
        if isinstance(a, Str) and z3.is_expr(b):
            return Str(a.base, a.off + b, a.len - b) if op == "+" else Str(a.base, a.off - b, a.len + b)
        if not (z3.is_expr(a) and z3.is_expr(b)):
            raise Unsupported("arithmetic on %s/%s" % (type(a).__name__, type(b).__name__))
        if a.sort() == FLT or b.sort() == FLT:
            return z3.Function("flt_" + op, a.sort(), b.sort(), FLT)(a, b)
        if op == "+":
            r = a + b
        elif op == "-":
            r = a - b
        elif op == "*":
            r = a * b
        elif op in ("/", "%"):
            self.ob(st, b != 0, "division by zero", line)
            if T.sg:
                if is_const_int(simp(b)) and ival(simp(b)) > 0:
                    d = ival(simp(b))
                    q = z3.If(a >= 0, a / d, -((-a) / d))
                    r = q if op == "/" else a - q * d
                else:
                    raise Unsupported("signed division by a variable")
            else:
                r = a / b if op == "/" else a % b
        elif op in ("<<", ">>"):
            bb = simp(b)
            if not is_const_int(bb):
                raise Unsupported("shift by a variable")
            r = a * (1 << ival(bb)) if op == "<<" else a / (1 << ival(bb))
        elif op in ("&", "|", "^"):
            r = self.bits(op, a, b, T, st)
        else:
            raise Unsupported("operator " + op)
        if T.k == "float":
            return r
        lo, hi = self.int_range(T) if T.k in ("int", "char", "enum") else (0, 1)
        r = simp(r)
        if is_const_int(r) and lo <= ival(r) <= hi:
            return r
        if op in ("%", ">>", "&"):
            return r
        if T.sg:
            self.ob(st, z3.And(r >= lo, r <= hi), "signed arithmetic does not overflow (%s)" % op, line, ("safety", "overflow"))
            return r
        return self.wrap(r, T, st)

    def bits(self, op, a, b, T, st):
        a, b = simp(a), simp(b)
        if is_const_int(a) and is_const_int(b):
            x, y = ival(a), ival(b)
            return iv({"&": x & y, "|": x | y, "^": x ^ y}[op])
        if is_const_int(a):
            a, b = b, a
        if op == "&" and is_const_int(b):
            m = ival(b)
            if m == 0:
                return iv(0)
            if m < 0:
                raise Unsupported("negative mask")
            # contiguous mask
            sh = (m & -m).bit_length() - 1
            mm = m >> sh
            if mm & (mm + 1) == 0:
                n = mm.bit_length()
                return ((a / (1 << sh)) % (1 << n)) * (1 << sh)
            # sum of bits
            r = iv(0)
            for k in range(m.bit_length()):
                if m >> k & 1:
                    r = r + ((a / (1 << k)) % 2) * (1 << k)
            return r
        if op == "|":
            # disjoint bits: provable a % 2^k == 0 and 0<=b<2^k
            for k in (4, 6, 8, 12, 16, 18, 24):
                for x, y in ((a, b), (b, a)):
                    if self.provable(st, z3.And(x % (1 << k) == 0, y >= 0, y < (1 << k))):
                        return x + y
        return z3.Function("bits_" + {"&": "and", "|": "or", "^": "xor"}[op], I, I, I)(a, b)

    CMP = {"<": lambda a, b: a < b, ">": lambda a, b: a > b, "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b,
           "==": lambda a, b: a == b, "!=": lambda a, b: a != b}

    def cmp(self, op, a, b, st):
        if isinstance(a, It) or isinstance(b, It):
            a = a.idx if isinstance(a, It) else a
            b = b.idx if isinstance(b, It) else b
        if isinstance(a, Str) and isinstance(b, Str) and a.base is b.base or (isinstance(a, Str) and isinstance(b, Str) and a.base[:2] == b.base[:2] and a.base[0] == "uf"):
            return self.CMP[op](a.off, b.off)   # pointers into the same buffer
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                same = (a.lv is None and b.lv is None) or (a.lv is not None and b.lv is not None and a.lv.root == b.lv.root and a.lv.path == b.lv.path)
                r = z3.BoolVal(same)
            else:
                p = a if isinstance(a, Ptr) else b
                o = b if isinstance(a, Ptr) else a
                r = (o == 0) if p.lv is None else z3.BoolVal(False)
            return r if op == "==" else z3.Not(r)
        if isinstance(a, Str) or isinstance(b, Str):
            o = b if isinstance(a, Str) else a
            if z3.is_expr(o):
                return z3.BoolVal(op == "!=")
            raise Unsupported("pointer comparison")
        if not (z3.is_expr(a) and z3.is_expr(b)):
            raise Unsupported("comparison of %s/%s" % (type(a).__name__, type(b).__name__))
        if a.sort() == FLT:
            return z3.Function("flt_cmp_" + op, FLT, FLT, B)(a, b)
        if a.sort() == B and b.sort() == I:
            a = z3.If(a, iv(1), iv(0))
        if b.sort() == B and a.sort() == I:
            b = z3.If(b, iv(1), iv(0))
        return self.CMP[op](a, b)

    def rv_binop(self, e, st):
        op = e["op"]
        if op in ("&&", "||"):
            return self.logic(op, e, st)
        if op == ",":
            out = []
            for _, s in (self.lv(e["l"], st) if e["l"].get("vc") in ("l", "x") else self.rv(e["l"], st)):
                out += self.rv(e["r"], s)
            return out
        out = []
        for a, s in self.rv(e["l"], st):
            for b, s2 in self.rv(e["r"], s):
                if op in self.CMP:
                    out.append((self.cmp(op, a, b, s2), s2))
                elif op == "<=>":
                    raise Unsupported("three-way comparison")
                else:
                    out.append((self.arith(op, a, b, e["t"], s2, e.get("line")), s2))
        return out

    def lv_binop(self, e, st):
        if e["op"] == ",":
            out = []
            for _, s in (self.lv(e["l"], st) if e["l"].get("vc") in ("l", "x") else self.rv(e["l"], st)):
                out += self.lv(e["r"], s)
            return out
        return [(self.newloc(s, v, e["t"]), s) for v, s in self.rv_binop(e, st)]

    def logic(self, op, e, st):
        out = []
        for a, s in self.rv(e["l"], st):
            for t, s1 in self.branch(a, s, e.get("line")):
                if op == "&&" and not t:
                    out.append((z3.BoolVal(False), s1))
                elif op == "||" and t:
                    out.append((z3.BoolVal(True), s1))
                else:
                    out += self.rv(e["r"], s1)
        return out

    def rv_cond(self, e, st):
        out = []
        for c, s in self.rv(e["c"], st):
            for t, s1 in self.branch(c, s, e.get("line")):
                x = e["a"] if t else e["b"]
                out += self.rv(x, s1)
        return [(v, s) for v, s in out if not s.dead]

    def lv_cond(self, e, st):
        out = []
        for c, s in self.rv(e["c"], st):
            for t, s1 in self.branch(c, s, e.get("line")):
                out += self.lv(e["a"] if t else e["b"], s1)
        return [(v, s) for v, s in out if not s.dead]

    def rv_assign(self, e, st):
        return [(self.load(l, s), s) for l, s in self.lv_assign(e, st)]

    def lv_assign(self, e, st):
        out = []
        for v, s in self.rv(e["r"], st):
            for l, s2 in self.lv(e["l"], s):
                self.store(l, v, s2)
                out.append((l, s2))
        return out

    def rv_opassign(self, e, st):
        return [(self.load(l, s), s) for l, s in self.lv_opassign(e, st)]

    def lv_opassign(self, e, st):
        out = []
        for b, s in self.rv(e["r"], st):
            for l, s2 in self.lv(e["l"], s):
                a = self.load(l, s2)
                ct = e.get("ct") or e["t"]
                if ct.k == "bool":
                    ct = e["t"]
                lt = e["l"]["t"]
                if z3.is_expr(a) and a.sort() == B:
                    if e["op"] == "|":
                        r = z3.Or(a, b if b.sort() == B else b != 0)
                    elif e["op"] == "&":
                        r = z3.And(a, b if b.sort() == B else b != 0)
                    else:
                        raise Unsupported("bool compound assignment")
                else:
                    if lt.k in ("int", "char", "enum") and ct.k == "int":
                        a2 = self.conv(a, lt, ct, s2)
                        r = self.arith(e["op"], a2, b, ct, s2, e.get("line"))
                        r = self.conv(r, ct, lt, s2)
                    else:
                        r = self.arith(e["op"], a, b, lt, s2, e.get("line"))
                self.store(l, r, s2)
                out.append((l, s2))
        return out

    def rv_lambda(self, e, st):
        env = {}
        res = [(env, st.this, st)]
        this = None
        cur = st
        for c in e["caps"]:
            if c.get("this"):
                this = cur.this
                continue
            if "id" not in c:
                raise Unsupported("capture")
            if c.get("byref") and not c.get("initcap"):
                env[c["id"]] = cur.env[c["id"]]
            else:
                if c.get("init"):
                    rs = self.rv(c["init"], cur)
                    if len(rs) != 1:
                        raise Unsupported("branching capture initialiser")
                    v, cur = rs[0]
                else:
                    v = self.load(cur.env[c["id"]], cur)
                env[c["id"]] = v if isinstance(v, (LV, HLV)) else self.newloc(cur, v, c["t"], c["name"])
        return [(Clo(e, env, this, e["t"].lam), cur)]

    def rv_stmtexpr(self, e, st):
        raise Unsupported("statement expression")

    def rv_throw(self, e, st):
        if not self.spec.throw_ok(self, e, st):
            self.ob(st, z3.BoolVal(False), "no exception escapes here", e.get("line"))
        st.dead = True
        return []

    def rv_new(self, e, st):
        T = e["nt"]
        if e.get("e") is None:
            raise Unsupported("new without initialiser")
        out = []
        for v, s in self.rv(e["e"], st):
            out.append((self.alloc(T, v, s), s))
        return out

    def rv_delete(self, e, st):
        return [(UNIT, s) for _, s in self.rv(e["e"], st)]

    def rv_initlist(self, e, st):
        return self.rv_init(e["t"], e, st)

    def rv_stdil(self, e, st):
        # initializer_list from array
        a = e["e"]
        while a["k"] in ("mat", "cast"):
            a = a["e"]
        et = e["t"].targs[0]
        return self.list_value(et, a.get("a", []), st, "std::initializer_list")

    def list_value(self, et, items, st, q):
        out = []
        for vs, s in self.seq(items, st, self.rv):
            v = self.empty_vec(et, q)
            for i, x in enumerate(vs):
                v = self.vec_set(v, iv(i), x)
            out.append((Vec(iv(len(vs)), v.data, et, q), s))
        return out

    def empty_vec(self, et, q="std::vector"):
        return Vec(iv(0), {p: self.const("ev" + p, z3.ArraySort(I, s)) for p, s in self.leaves(et)}, et, q)

    def rv_init(self, T, e, st):
        """initialise an object of type T from expression e (may be an init list)"""
        if e["k"] != "initlist":
            return self.rv(e, st)
        T = e["t"]
        items = e["a"]
        if T.k == "array":
            return [(tuple(vs), s) for vs, s in self.seq(items, st, self.rv)]
        if T.k != "rec":
            if not items:
                return [(self.default(T, st), st)]
            return self.rv(items[0], st)
        r = self.db.records.get(T.n)
        if r is None:
            if T.q == "std::pair" and len(items) == 2:
                return [(Rec("std::pair", {"first": vs[0], "second": vs[1]}), s) for vs, s in self.seq(items, st, self.rv)]
            if T.q == "std::array":
                if len(items) == 1 and items[0]["k"] == "initlist":
                    items = items[0]["a"]
                return self.list_value(T.targs[0], items, st, T.q)
            if not items:
                return [(self.default(T, st), st)]
            raise Unsupported("aggregate " + T.s)
        fields = r["fields"]
        if r["bases"]:
            if items and items[0]["t"].k == "rec" and len(items) == len(fields) + len(r["bases"]):
                pass
            else:
                raise Unsupported("aggregate with bases")

        def f(p, s):
            it, fd = p
            if fd is not None and fd["t"].k in ("ref", "rref"):
                return self.lv(it, s)
            return self.rv(it, s)
        nb = len(r["bases"])
        fl = [None] * nb + fields
        out = []
        for vs, s in self.seq(list(zip(items, fl)), st, f):
            d = {}
            for v, fd in zip(vs, fl):
                if fd is None:
                    if isinstance(v, Rec):
                        d.update(v.f)
                else:
                    d[fd["name"]] = v
            for fd in fields[len(items) - nb:] if len(items) - nb < len(fields) else []:
                if fd["name"] not in d:
                    d[fd["name"]] = self.default(fd["t"], s, fd.get("init"))
            out.append((Rec(T.n, d), s))
        return out

    def default(self, T, st, init=None):
        if self.spec and init is None:
            r = self.spec.default_hook(self, T, st)
            if r is not None:
                return r
        if init is not None:
            rs = self.rv_init(T, init, st)
            if len(rs) == 1:
                return rs[0][0]
            raise Unsupported("branching default initialiser")
        k = T.k
        if k == "bool":
            return z3.BoolVal(False)
        if k in ("int", "char", "enum"):
            return iv(0)
        if k in ("ptr", "nullptr"):
            return iv(0)
        if k == "rec":
            q = T.q
            if q in STRQ:
                return Str.lit(b"")
            if q in OPTQ:
                return Opt(z3.BoolVal(False), self.fresh(T.targs[0], "novalue", st), T.targs[0])
            if q in VECQ:
                return self.empty_vec(T.targs[0], q)
            if q in MAPQ:
                ks = self.leaves(T.targs[0])[0][1]
                return Map(z3.K(ks, z3.BoolVal(False)), {p: self.const("em" + p, z3.ArraySort(ks, s)) for p, s in self.leaves(T.targs[1])}, T.targs[0], T.targs[1], q)
            if q in SETQ:
                ks = self.leaves(T.targs[0])[0][1]
                return Map(z3.K(ks, z3.BoolVal(False)), {}, T.targs[0], None, q)
            if q in PTRQ:
                return iv(0)
            if q == "std::pair":
                return Rec("std::pair", {"first": self.default(T.targs[0], st), "second": self.default(T.targs[1], st)})
            r = self.db.records.get(T.n)
            if r is not None:
                d = {}
                for b in r["bases"]:
                    v = self.default(b, st)
                    if isinstance(v, Rec):
                        d.update(v.f)
                for fd in r["fields"]:
                    d[fd["name"]] = self.default(fd["t"], st, fd.get("init"))
                return Rec(T.n, d)
        return self.fresh(T, "dflt", st)

    # ------------------------------------------------------------ construct
    def rv_construct(self, e, st):
        T = e["t"]
        args = e["args"]
        if e.get("zeroinit") and not args and self.spec:
            r = self.spec.zero_hook(self, T, st)
            if r is not None:
                return [(r, st)]
        if (e.get("copy") or e.get("move")) and len(args) == 1:
            a = args[0]
            if a.get("vc") == "r" and a["k"] != "mat":
                return self.rv(a, st)
            if a["k"] == "mat":
                return self.rv(a, st)
            out = []
            for l, s in self.lv(a, st):
                if isinstance(l, HLV) and not l.path:
                    raise Unsupported("copy of heap object")
                if e.get("move") and e["fn"] in self.db.functions and not e.get("dflt"):
                    out += self.construct_inline(T, e, [l], s)
                    continue
                v = self.load(l, s)
                if e.get("move") and T.k == "rec":
                    self.moved_from(l, T, s)
                out.append((v, s))
            return out
        if self.models:
            r = self.models.construct(self, e, T, st)
            if r is not None:
                return r
        f = self.db.functions.get(e["fn"])
        if f is not None:
            out = []
            for av, s in self.args_for(e, st):
                c = self.contract_for(e)
                out += self.construct_inline(T, e, av, s)
            return out
        if not args:
            return [(self.default(T, st), st)]
        raise Unsupported("constructor " + e["fn"])

    def moved_from(self, l, T, st):
        if T.q in PTRQ and isinstance(l, LV):
            self.store(l, iv(0), st)

    def construct_inline(self, T, e, argv, st):
        f = self.db.functions[e["fn"]]
        base = {}
        raw = {fd["name"]: self.fresh(fd["t"], "uninit." + fd["name"], st) for _, fd in self.field_owner(T) if fd["t"].k in ("int", "char", "enum", "bool") and fd.get("init") is None}
        loc = self.newloc(st, Rec(T.n, raw), T)
        out = []
        for kind, v, s in self.run_fn(f, loc, argv, st):
            if kind == "r":
                out.append((s.store[loc.root], s))
        return out

    def alloc(self, T, v, st):
        """heap-allocate a constructed object: returns its reference"""
        ref = self.const("new_" + (T.n or "").split("::")[-1].split("<")[0], I)
        st.assume(ref > 0)
        if isinstance(v, Rec):
            self.heap_init(T, v, ref, st)
        if self.spec:
            self.spec.on_alloc(self, T, v, ref, st)
        if isinstance(v, Rec):
            pass
        elif z3.is_expr(v) and v.sort() == I:
            pass
        return ref

    def field_owner(self, T):
        """[(owner class name, field)] of all fields incl. bases"""
        r = self.db.records.get(T.n)
        out = []
        if r:
            for b in r["bases"]:
                out += self.field_owner(b)
            out += [(r["n"], fd) for fd in r["fields"]]
        return out

    def heap_init(self, T, v, ref, st):
        for cls, fd in self.field_owner(T):
            x = v.f.get(fd["name"])
            if x is None:
                continue
            if isinstance(x, (Clo, FnRef)):
                continue
            nm = cls + "." + fd["name"]
            if isinstance(x, (LV, HLV)):
                if isinstance(x, HLV) and not x.path:
                    x = x.ref
                else:
                    continue
            for p, t in self.leafmap(x).items():
                if not z3.is_expr(t):
                    continue
                key = nm + p
                if self.ismut(nm, cls):
                    a = st.heap.get(key)
                    if a is None:
                        a = z3.Const("H!" + key, z3.ArraySort(I, t.sort()))
                    st.heap[key] = z3.Store(a, ref, t)
                else:
                    st.assume(z3.Function("F!" + key, I, t.sort())(ref) == t)

    # ----------------------------------------------------------------- calls
    def args_for(self, e, st):
        """evaluate call arguments according to parameter types"""
        pt = e.get("pt", [])
        items = list(enumerate(e["args"]))

        def f(p, s):
            i, a = p
            T = pt[i] if i < len(pt) else None
            if T is not None and T.k in ("ref", "rref"):
                return self.lv(a, s)
            return self.rv(a, s)
        return self.seq(items, st, f)

    def contract_for(self, e):
        return self.contracts.get(e.get("q"))

    def rv_call(self, e, st):
        res = self.call(e, st)
        out = []
        for v, s in res:
            if s.dead:
                continue
            if e.get("vc") in ("l", "x") and isinstance(v, (LV, HLV)):
                if isinstance(v, HLV) and not v.path:
                    out.append((v, s))
                else:
                    out.append((self.load(v, s), s))
            else:
                out.append((v, s))
        return out

    def lv_call(self, e, st):
        out = []
        for v, s in self.call(e, st):
            if s.dead:
                continue
            if isinstance(v, (LV, HLV)):
                out.append((v, s))
            else:
                out.append((self.newloc(s, v, e["t"]), s))
        return out

    def call(self, e, st):
        self.tick()
        name = e.get("name")
        if (e.get("noreturn") or name in ("__assert_fail", "__builtin_unreachable", "abort")) and e.get("q") not in self.models.noreturn:
            self.ob(st, z3.BoolVal(False), "assertion cannot fail" if name == "__assert_fail" else "unreachable code (%s)" % name, e.get("line"))
            st.dead = True
            return []
        if e.get("dyn"):
            out = []
            for c, s in (self.lv(e["callee"], st) if e["callee"].get("vc") in ("l", "x") else self.rv(e["callee"], st)):
                if isinstance(c, (LV, HLV)):
                    c = self.load(c, s)
                for av, s2 in self.seq(e["args"], s, lambda a, s_: self.lv(a, s_) if a.get("vc") in ("l", "x") else self.rv(a, s_)):
                    out += self.call_value(c, e, av, s2)
            return out
        q = e["q"]
        if self.spec:
            r = self.spec.call_hook(self, e, st)
            if r is not None:
                return r
        # call operator of a closure
        if name == "operator()" and "obj" in e and e["obj"]["t"].k == "rec" and (e["obj"]["t"].lam or e["obj"]["t"].q in ("std::function", "llvm::function_ref", "llvm::unique_function")):
            out = []
            for c, s in self.lv(e["obj"], st):
                cv = self.load(c, s)
                for av, s2 in self.seq(e["args"], s, lambda a, s_: self.lv(a, s_) if a.get("vc") in ("l", "x") else self.rv(a, s_)):
                    out += self.call_value(cv, e, av, s2)
            return out
        c = self.contract_for(e)
        if c is not None and c.applies(self, e):
            return self.call_contract(c, e, st)
        if self.models:
            r = self.models.call(self, e, st)
            if r is not None:
                return r
        f = self.db.functions.get(e["fn"])
        if f is None:
            if name == "operator=" and "obj" in e and e.get("dflt"):
                return self.default_assign(e, st)
            if e.get("dflt") and name == "operator==":
                return self.default_eq(e, st)
            if name.startswith("~"):
                return [(UNIT, st)]
            raise Unsupported("call of %s" % e["fn"])
        if e.get("virtual") and not e.get("nonvirt"):
            if not self.spec.devirt(self, e):
                raise Unsupported("virtual call %s" % e["fn"])
        out = []
        if "obj" in e:
            objs = self.obj_lv(e["obj"], e.get("arrow"), st, e.get("line"))
        else:
            objs = [(None, st)]
        for o, s in objs:
            for av, s2 in self.args_for(e, s):
                out += self.inline(f, o, av, s2, e)
        return out

    def default_assign(self, e, st):
        out = []
        for l, s in self.obj_lv(e["obj"], e.get("arrow"), st):
            a = e["args"][0]
            if a.get("vc") in ("l", "x"):
                for l2, s2 in self.lv(a, s):
                    self.store(l, self.load(l2, s2), s2)
                    out.append((l, s2))
            else:
                for v, s2 in self.rv(a, s):
                    self.store(l, v, s2)
                    out.append((l, s2))
        return out

    def default_eq(self, e, st):
        raise Unsupported("defaulted operator==")

    def call_value(self, c, e, av, st):
        if isinstance(c, (LV, HLV)):
            c = self.load(c, st)
        if isinstance(c, Clo):
            body = c.node.get("body")
            if body is None:
                f = self.db.functions.get(e.get("fn"))
                if f is None:
                    raise Unsupported("generic lambda")
                body = f
            return self.inline(body, c.this, av, st, e, env=c.env)
        if isinstance(c, FnRef):
            node = dict(c.node)
            f = self.db.functions.get(c.fn)
            if f is not None:
                return self.inline(f, None, av, st, e)
            if self.models:
                r = self.models.call_values(self, c.q, av, st, e)
                if r is not None:
                    return r
        if self.spec:
            r = self.spec.call_unknown(self, c, e, av, st)
            if r is not None:
                return r
        raise Unsupported("call through %r" % type(c).__name__)

    def inline(self, f, obj, av, st, e, env=None):
        entry = st
        store0 = dict(st.store)
        heap0 = dict(st.heap)
        ghost0 = dict(st.ghost)
        n0 = len(st.pc)
        pc0 = list(st.pc)
        out = []
        for kind, v, s in self.run_fn(f, obj, av, st, env=env, e=e):
            if kind == "r":
                out.append((v, s))
        return self.merge_results(out, store0, heap0, ghost0, pc0)

    def merge_results(self, out, store0, heap0, ghost0, pc0):
        """join call outcomes that leave the caller-visible state alike"""
        if len(out) < 2:
            return out
        n0 = len(pc0)
        roots = list(store0.keys())
        groups = []
        for v, s in out:
            if not self.mergeable(v):
                groups.append([None, [(v, s)]])
                continue
            ch = {}
            for k in roots:
                x, y = store0[k], s.store.get(k)
                if x is not y:
                    o1 = {}; self._sl(y, "", k, o1)
                    ch.update(o1)
            for k, x in s.heap.items():
                if heap0.get(k) is not x and not (k not in heap0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED):
                    ch[("heap", k)] = x
            for k, x in s.ghost.items():
                if ghost0.get(k) is not x:
                    ch[("ghost", k)] = x
            for g in groups:
                if g[0] is not None and self.same_change(g[0], ch) and self.same_shape(g[1][0][0], v):
                    g[1].append((v, s))
                    break
            else:
                groups.append([ch, [(v, s)]])
        res = []
        for ch, items in groups:
            if len(items) == 1:
                res.append(items[0])
                continue
            conds = [z3.And(*s.pc[n0:]) if len(s.pc) > n0 else z3.BoolVal(True) for v, s in items]
            v = self.mrg(conds, [v for v, _ in items])
            s = items[0][1]
            s.pc = pc0 + [z3.Or(*conds)]
            for _, s2 in items[1:]:
                for k, x in s2.store.items():
                    if k not in s.store:
                        s.store[k] = x
            res.append((v, s))
        return res

    def mergeable(self, v):
        if isinstance(v, Opt):
            return self.mergeable(v.val)
        if isinstance(v, Rec):
            return all(self.mergeable(x) for x in v.f.values())
        return z3.is_expr(v) or isinstance(v, Unit)

    def same_shape(self, a, b):
        if type(a) is not type(b) and not (z3.is_expr(a) and z3.is_expr(b)):
            return False
        if isinstance(a, Opt):
            return self.same_shape(a.val, b.val)
        if isinstance(a, Rec):
            return a.cls == b.cls and a.f.keys() == b.f.keys() and all(self.same_shape(a.f[k], b.f[k]) for k in a.f)
        if z3.is_expr(a):
            return a.sort() == b.sort()
        return True

    def same_change(self, a, b):
        if a.keys() != b.keys():
            return False
        for k in a:
            x, y = a[k], b[k]
            if k[0] == "ghost" and isinstance(x, tuple):
                if x is not y and x != y:
                    return False
                continue
            if not self.same_leaf(x, y):
                return False
        return True

    def mrg(self, conds, vals):
        a = vals[0]
        if isinstance(a, Opt):
            return Opt(self.mrg(conds, [x.has for x in vals]), self.mrg(conds, [x.val for x in vals]), a.et, a.kind)
        if isinstance(a, Rec):
            return Rec(a.cls, {k: self.mrg(conds, [x.f[k] for x in vals]) for k in a.f})
        if isinstance(a, Unit):
            return a
        if all(x.eq(a) for x in vals):
            return a
        r = vals[-1]
        for c, x in list(zip(conds, vals))[-2::-1]:
            r = z3.If(c, x, r)
        return simp(r) if z3.is_bool(r) else r

    def run_fn(self, f, obj, av, st, env=None, e=None):
        """execute a function body: [(kind, val, st)] kind in r/t"""
        self.depth += 1
        if self.depth > 40:
            self.depth -= 1
            raise Unsupported("inlining depth (recursion without a contract): " + f["key"])
        if sum(1 for x in self.callstack if x == f["key"]) > 1:
            self.depth -= 1
            raise Unsupported("recursion without a contract: " + f["key"])
        self.callstack.append(f["key"])
        self.inlined.add(f["q"])
        saved_env, saved_this = st.env, st.this
        st.env = dict(env) if env else {}
        st.this = obj
        try:
            ps = f["params"]
            for i, p in enumerate(ps):
                if i >= len(av):
                    raise Unsupported("missing argument")
                a = av[i]
                if p["t"].k in ("ref", "rref"):
                    if not isinstance(a, (LV, HLV)):
                        a = self.newloc(st, a, p["t"].to, p["name"])
                    st.env[p["id"]] = a
                else:
                    if isinstance(a, (LV, HLV)) and not (isinstance(a, HLV) and not a.path):
                        a = self.load(a, st)
                    st.env[p["id"]] = self.newloc(st, a, p["t"], p["name"])
            states = [st]
            if f.get("ctor"):
                states = self.ctor_inits(f, obj, st)
            res = []
            for s in states:
                for kind, v, s2 in self.ex(f["body"], s):
                    if kind in ("n",):
                        res.append(("r", UNIT, s2))
                    elif kind in ("r", "t"):
                        res.append((kind, v, s2))
                    else:
                        raise Unsupported("stray break")
            for kind, v, s in res:
                s.env, s.this = dict(saved_env), saved_this
            return [(k, v, s) for k, v, s in res if not s.dead]
        finally:
            self.depth -= 1
            self.callstack.pop()

    def ctor_inits(self, f, obj, st):
        states = [st]
        T = obj.t
        done = set()
        for ini in f["inits"]:
            ns = []
            for s in states:
                if "field" in ini:
                    done.add(ini["field"])
                    if ini["ft"].k in ("ref", "rref"):
                        for l, s2 in self.lv(ini["e"], s):
                            self.store(obj.field(ini["field"]), l, s2)
                            ns.append(s2)
                    else:
                        for v, s2 in self.rv_init(ini["ft"], ini["e"], s):
                            self.store(obj.field(ini["field"], ini["ft"]), v, s2)
                            ns.append(s2)
                elif "base" in ini:
                    for v, s2 in self.rv(ini["e"], s):
                        if isinstance(v, Rec):
                            cur = self.load(obj, s2)
                            d = dict(cur.f); d.update(v.f)
                            self.store(obj, Rec(cur.cls, d), s2)
                        ns.append(s2)
                elif "delegating" in ini:
                    for v, s2 in self.rv(ini["e"], s):
                        self.store(obj, v, s2)
                        ns.append(s2)
                else:
                    raise Unsupported("ctor initialiser")
            states = ns
        return states

    # -------------------------------------------------------- contract calls
    def call_contract(self, c, e, st):
        out = []
        if "obj" in e:
            objs = self.obj_lv(e["obj"], e.get("arrow"), st, e.get("line"))
        else:
            objs = [(None, st)]
        for o, s in objs:
            for av, s2 in self.args_for(e, s):
                out += self.apply_contract(c, o, av, s2, e)
        return out

    def apply_contract(self, c, obj, av, st, e):
        self.assumed.add("contract:" + c.q)
        ctx = Ctx(self, st, obj, av, c, None)
        r = c.shortcut(ctx)
        if r is not None:
            return r
        for nm, f, tags in c.requires_list(ctx):
            self.ob(st, f, "precondition of %s: %s" % (c.q.split("::")[-1], nm), e.get("line"), tags)
        self.check_decreases(c, ctx, e)
        pre = st.fork()
        for l in c.modifies(ctx):
            self.havoc(l, st)
        out = []
        for oc in c.outcomes:
            s = st.fork() if len(c.outcomes) > 1 else st
            post = Ctx(self, s, obj, av, c, pre)
            post.assuming = True
            post.outcome = oc
            post.ret = c.result(post, e["t"] if not e.get("rett") else e["rett"], e)
            for nm, f, tags in c.ensures_list(post):
                s.assume(f)
            c.after(post)
            if len(c.outcomes) > 1 and not smt.feasible(s.pc, self.feas_depth):
                continue
            out.append((post.ret, s))
        return out

    def check_decreases(self, c, ctx, e):
        m = c.measure(ctx)
        if m is None or getattr(self, "entry_measure", None) is None or c.scc is None or c.scc != self.cur_scc:
            return
        lex = z3.BoolVal(False)
        eq = z3.BoolVal(True)
        for a, b in zip(m, self.entry_measure):
            lex = z3.Or(lex, z3.And(eq, a < b, b >= 0))
            eq = z3.And(eq, a == b)
        self.ob(ctx.st, lex, "recursive call of %s decreases the measure" % c.q.split("::")[-1], e.get("line"), ("termination",))

    def havoc(self, l, st):
        if isinstance(l, str):     # heap field
            for k in list(st.heap):
                if k == l or k.startswith(l + ".") or k.startswith(l):
                    st.heap[k] = self.const("H!" + k, st.heap[k].sort())
            return
        v = self.load(l, st)
        if v is None and l.t is not None:      # not initialised yet
            self.store(l, self.fresh(l.t.to if l.t.k in ("ref", "rref") else l.t, "hv", st), st)
            return
        if isinstance(v, Str) and v.base[0] == "lit" and self.spec.arrstr:
            v = v.arr() or v
        self.store(l, self.havoc_val(v, "hv", st, l.t), st)

    def havoc_val(self, v, name, st, t=None):
        if isinstance(v, Rec):
            return Rec(v.cls, {k: self.havoc_val(x, name + "." + k, st) for k, x in v.f.items()})
        if isinstance(v, Opt):
            return Opt(self.const(name + ".has", B), self.havoc_val(v.val, name + ".val", st), v.et, v.kind)
        if isinstance(v, Str):
            if v.base[0] == "arr":
                n = self.const(name + ".len", I)
                st.assume(z3.And(n >= 0, n < BIG))
                return Str(("arr", self.const(name, ARR)), iv(0), n)
            return Str.seq(self.const(name, SEQ))
        if isinstance(v, Vec):
            n = self.const(name + ".len", I)
            st.assume(z3.And(n >= 0, n < BIG))
            return Vec(n, {p: self.const(name + p, a.sort()) for p, a in v.data.items()}, v.et, v.q)
        if isinstance(v, Map):
            return Map(self.const(name + ".has", v.has.sort()), {p: self.const(name + p, a.sort()) for p, a in v.data.items()}, v.kt, v.et, v.q)
        if z3.is_expr(v):
            c = self.const(name, v.sort())
            if t is not None and t.k in ("int", "char", "enum") and v.sort() == I:
                st.assume(self.rng(t, c))
            return c
        if isinstance(v, It):
            return v.new(self.const(name + ".idx", I))
        return v

    # ------------------------------------------------------------ statements
    def ex(self, s, st):
        self.tick()
        if st.dead:
            return []
        if s is None:
            return [("n", None, st)]
        return getattr(self, "ex_" + s["k"].replace("?", "unk"))(s, st)

    def ex_unk(self, s, st):
        raise Unsupported("statement " + str(s.get("cls")))

    def ex_null(self, s, st):
        return [("n", None, st)]

    def ex_expr(self, s, st):
        e = s["e"]
        r = self.lv(e, st) if e.get("vc") in ("l", "x") else self.rv(e, st)
        return [("n", None, s2) for _, s2 in r if not s2.dead]

    def ex_block(self, s, st):
        res = [("n", None, st)]
        env0 = None
        for x in s["b"]:
            nr = []
            for kind, v, s1 in res:
                if kind == "n":
                    nr += self.ex(x, s1)
                else:
                    nr.append((kind, v, s1))
            res = nr
            if len(res) > self.maxpaths:
                raise Unsupported("too many paths")
        return self.run_dtors(s, res)

    def run_dtors(self, block, res):
        """destructors of locals declared directly in this block"""
        vs = []
        for x in block["b"]:
            if x["k"] == "decl":
                for d in x["v"]:
                    T = d["t"]
                    if T.k == "rec" and T.n in self.db.records and self.db.records[T.n].get("dtor"):
                        vs.append((d, self.db.records[T.n]["dtor"]))
        if not vs:
            return res
        for d, key in reversed(vs):
            nr = []
            for kind, v, s in res:
                if d["id"] not in s.env or s.dead:
                    nr.append((kind, v, s))
                    continue
                # a returned reference/value is computed before the destructor runs
                f = self.db.functions.get(key)
                if f is None:
                    raise Unsupported("destructor " + key)
                for k2, v2, s2 in self.run_fn(f, s.env[d["id"]], [], s):
                    s2.env = dict(s.env)
                    nr.append((kind, v, s2))
            res = nr
        return res

    def decl(self, d, st):
        """declare one variable: [st]"""
        T = d["t"]
        if d.get("static"):
            pass
        if T.k in ("ref", "rref"):
            out = []
            for l, s in self.lv(d["init"], st):
                s.env[d["id"]] = l
                out.append(s)
            return self.bindings(d, out)
        if "init" not in d or d["init"] is None:
            if T.k == "rec":
                v = self.default(T, st)
            elif T.k == "array":
                v = tuple([None] * self.array_len(T))
            else:
                v = None
            st.env[d["id"]] = self.newloc(st, v, T, d["name"])
            return [st]
        out = []
        for v, s in self.rv_init(T, d["init"], st):
            if isinstance(v, (LV, HLV)) and not (isinstance(v, HLV) and not v.path):
                v = self.load(v, s)
            s.env[d["id"]] = self.newloc(s, v, T, d["name"])
            out.append(s)
        return self.bindings(d, out)

    def array_len(self, T):
        return int(T.s[T.s.rindex("[") + 1:-1])

    def bindings(self, d, states):
        if "bindings" not in d:
            return states
        out = []
        for s in states:
            cur = [s]
            for b in d["bindings"]:
                ns = []
                for s1 in cur:
                    if b.get("hold"):
                        for s2 in self.decl_binding_hold(d, b, s1):
                            ns.append(s2)
                    else:
                        for l, s2 in self.lv(b["e"], s1):
                            s2.env[b["id"]] = l
                            ns.append(s2)
                cur = ns
            out += cur
        return out

    def decl_binding_hold(self, d, b, st):
        # std::get<i>(pair) : bind by position
        idx = d["bindings"].index(b)
        base = st.env[d["id"]]
        v = self.load(base, st)
        if isinstance(v, Rec) and v.cls == "std::pair":
            st.env[b["id"]] = base.field(["first", "second"][idx], b["t"])
            return [st]
        if isinstance(v, Rec) and v.cls == "std::tuple":
            st.env[b["id"]] = base.field(str(idx), b["t"])
            return [st]
        raise Unsupported("structured binding")

    def ex_decl(self, s, st):
        res = [st]
        for d in s["v"]:
            nr = []
            for s1 in res:
                nr += self.decl(d, s1)
            res = nr
        return [("n", None, s1) for s1 in res if not s1.dead]

    def ex_if(self, s, st):
        pre = [st]
        if s.get("init"):
            pre = [s1 for k, v, s1 in self.ex(s["init"], st)]
        if s.get("var"):
            nr = []
            for s1 in pre:
                nr += self.decl(s["var"], s1)
            pre = nr
        out = []
        for s0 in pre:
            for c, s1 in self.rv(s["c"], s0):
                if s1.dead:
                    continue
                if s.get("constexpr"):
                    c = simp(c)
                for t, s2 in self.branch(c, s1, s.get("line")):
                    if t:
                        out += self.ex(s["then"], s2)
                    elif s.get("else"):
                        out += self.ex(s["else"], s2)
                    else:
                        out.append(("n", None, s2))
        return out

    def ex_return(self, s, st):
        e = s.get("e")
        if e is None:
            return [("r", UNIT, st)]
        if e.get("vc") in ("l", "x"):
            return [("r", l, s2) for l, s2 in self.lv(e, st) if not s2.dead]
        return [("r", v, s2) for v, s2 in self.rv_init(e["t"], e, st) if not s2.dead]

    def ex_break(self, s, st):
        return [("b", None, st)]

    def ex_continue(self, s, st):
        return [("c", None, st)]

    def ex_try(self, s, st):
        raise Unsupported("try block")

    def ex_case(self, s, st):
        return self.ex(s["s"], st)

    ex_default = ex_case

    def ex_switch(self, s, st):
        pre = [st]
        if s.get("init"):
            pre = [x for _, _, x in self.ex(s["init"], st)]
        if s.get("var"):
            nr = []
            for s1 in pre:
                nr += self.decl(s["var"], s1)
            pre = nr
        body = s["b"]["b"] if s["b"]["k"] == "block" else [s["b"]]
        # flatten labels
        flat = []
        for x in body:
            while x is not None and x["k"] in ("case", "default"):
                flat.append(("label", x))
                x = x["s"]
            flat.append(("stmt", x))
        out = []
        for s0 in pre:
            for c, s1 in self.rv(s["c"], s0):
                labels = []
                dflt = None
                for i, (k, x) in enumerate(flat):
                    if k == "label":
                        if x["k"] == "default":
                            dflt = i
                        else:
                            v = self.rv(x["e"], s1)[0][0]
                            labels.append((i, v))
                cc = c
                if z3.is_expr(cc) and cc.sort() == B:
                    cc = z3.If(cc, iv(1), iv(0))
                starts = []
                csimp = simp(cc)
                if is_const_int(csimp):
                    hit = None
                    for i, v in labels:
                        if ival(simp(v)) == ival(csimp):
                            hit = i
                            break
                    if hit is None:
                        hit = dflt
                    starts.append((hit, s1))
                else:
                    # group labels that fall through to the same first statement
                    groups = {}
                    for i, v in labels:
                        j = i
                        while flat[j][0] == "label":
                            j += 1
                            if j == len(flat):
                                break
                        groups.setdefault(j, []).append(v)
                    neg = []
                    for j, vs in groups.items():
                        cond = z3.Or(*[cc == v for v in vs]) if len(vs) > 1 else cc == vs[0]
                        neg.append(z3.Not(cond))
                        # default shares group?
                        if dflt is not None:
                            jd = dflt
                            while jd < len(flat) and flat[jd][0] == "label":
                                jd += 1
                            if jd == j:
                                continue
                        if smt.feasible(s1.pc + [cond]):
                            s2 = s1.fork()
                            s2.assume(cond)
                            s2.trace = (s2.trace, (s.get("line"), str(vs[0])))
                            starts.append((j, s2))
                    if dflt is not None:
                        jd = dflt
                        while jd < len(flat) and flat[jd][0] == "label":
                            jd += 1
                        negd = []
                        for j, vs in groups.items():
                            if j != jd:
                                negd += [cc != v for v in vs]
                        if smt.feasible(s1.pc + negd):
                            s2 = s1.fork()
                            for n in negd:
                                s2.assume(n)
                            s2.trace = (s2.trace, (s.get("line"), "default"))
                            starts.append((jd, s2))
                    else:
                        if smt.feasible(s1.pc + neg):
                            s2 = s1.fork()
                            for n in neg:
                                s2.assume(n)
                            starts.append((None, s2))
                for j, s2 in starts:
                    if j is None:
                        out.append(("n", None, s2))
                        continue
                    res = [("n", None, s2)]
                    for k, x in flat[j:]:
                        if k == "label":
                            continue
                        nr = []
                        for kind, v, s3 in res:
                            if kind == "n":
                                nr += self.ex(x, s3)
                            else:
                                nr.append((kind, v, s3))
                        res = nr
                    for kind, v, s3 in res:
                        out.append(("n" if kind == "b" else kind, v, s3))
        return out

    # ----------------------------------------------------------------- loops
    def ex_while(self, s, st):
        def it(st1):
            out = []
            pre = [st1]
            if s.get("var"):
                pre = self.decl(s["var"], st1)
            for s0 in pre:
                for c, s2 in self.rv(s["c"], s0):
                    if s2.dead:
                        continue
                    for t, s3 in self.branch(c, s2, s.get("line")):
                        if not t:
                            out.append(("exit", None, s3))
                        else:
                            out += self.body_res(self.ex(s["b"], s3))
            return out
        return self.loop(s, st, it)

    def body_res(self, res, inc=None):
        out = []
        for kind, v, s in res:
            if kind in ("n", "c"):
                if inc is not None:
                    for s2 in inc(s):
                        out.append(("back", None, s2))
                else:
                    out.append(("back", None, s))
            elif kind == "b":
                out.append(("exit", None, s))
            else:
                out.append((kind, v, s))
        return out

    def ex_do(self, s, st):
        # do B while (c)  ==  B; while (c) B   (first iteration peeled)
        def cond(st1):
            out = []
            for c, s3 in self.rv(s["c"], st1):
                if not s3.dead:
                    out += self.branch(c, s3, s.get("line"))
            return out

        def it(st1):
            out = []
            for t, s4 in cond(st1):
                if not t:
                    out.append(("exit", None, s4))
                else:
                    out += self.body_res(self.ex(s["b"], s4))
            return out
        out = []
        for kind, v, s2 in self.ex(s["b"], st):
            if kind in ("n", "c"):
                s2.env = dict(st.env) if s2 is not st else s2.env
                out += self.loop(s, s2, it)
            elif kind == "b":
                out.append(("n", None, s2))
            else:
                out.append((kind, v, s2))
        return out

    def ex_for(self, s, st):
        pre = [st]
        if s.get("init"):
            pre = [x for _, _, x in self.ex(s["init"], st)]

        def inc(st1):
            if not s.get("inc"):
                return [st1]
            e = s["inc"]
            r = self.lv(e, st1) if e.get("vc") in ("l", "x") else self.rv(e, st1)
            return [x for _, x in r]

        def it(st1):
            out = []
            if not s.get("c"):
                return self.body_res(self.ex(s["b"], st1), inc)
            for c, s2 in self.rv(s["c"], st1):
                for t, s3 in self.branch(c, s2, s.get("line")):
                    if not t:
                        out.append(("exit", None, s3))
                    else:
                        out += self.body_res(self.ex(s["b"], s3), inc)
            return out
        out = []
        for p in pre:
            out += self.loop(s, p, it)
        return out

    def ex_rangefor(self, s, st):
        out = []
        rng = s["range"]
        for l, s0 in (self.lv(rng, st)):
            v = self.load(l, s0)
            if self.spec:
                r = self.spec.range_hook(self, l, v, s, s0)
                if r is not None:
                    out += r
                    continue
            keyat = None
            if isinstance(v, tuple):
                n = iv(len(v))
            elif isinstance(v, (Vec, Str)):
                n = v.len
            elif isinstance(v, Map):
                n = mapcard(v.has)
                s0.assume(z3.And(n >= 0, mapenum(v.has)))
                keyat = lambda i, has=v.has: mapkey(has, i)
            else:
                raise Unsupported("range-for over %r" % type(v).__name__)
            idx = self.newloc(s0, iv(0), None, "$idx")
            var = s["v"]
            self.loctype[idx.root] = None

            def it(st1, idx=idx, l=l, n=n, var=var, keyat=keyat, T0=var["t"]):
                o = []
                i = self.load(idx, st1)
                for t, s3 in self.branch(i < n, st1, s.get("line")):
                    if not t:
                        o.append(("exit", None, s3))
                        continue
                    cont = self.load(l, s3)
                    T = var["t"]
                    held = None
                    if keyat is not None:
                        key = keyat(i)
                        s3.assume(z3.And(z3.Select(cont.has, key), mappos(cont.has, key) == i))
                        self.spec.map_read(self, cont, key, s3)
                        x = self.models.unkey(cont.kt, key)
                        if cont.et is not None:
                            x = Rec("std::pair", {"first": x, "second": self.map_get(cont, key, s3)})
                        held = self.newloc(s3, x, T.to if T.k in ("ref", "rref") else T, var["name"])
                        s3.env[var["id"]] = held
                        held = (held, x)
                    elif T.k in ("ref", "rref"):
                        if isinstance(l, LV) and not isinstance(cont, Str):
                            s3.env[var["id"]] = l.index(i, T.to)
                            ev = None
                        else:
                            s3.env[var["id"]] = self.newloc(s3, self.vec_get(cont, i, s3), T.to, var["name"])
                    else:
                        x = self.vec_get(cont, i, s3)
                        if isinstance(cont, Str) and T.k in ("int", "char"):
                            if not is_const_int(simp(x)):
                                s3.assume(z3.And(x >= -128, x <= 127))
                            x = self.wrap(x, T, s3)
                        elif isinstance(cont, (Vec, tuple)) and T.k in ("int", "char") and z3.is_expr(x) and x.sort() == I:
                            x = self.wrap(x, T, s3)
                        s3.env[var["id"]] = self.newloc(s3, x, T, var["name"])
                    sts = self.bindings(var, [s3])
                    for s4 in sts:
                        def inc(sx, cont=cont, held=held):
                            self.store(idx, self.load(idx, sx) + 1, sx)
                            now = self.load(l, sx)
                            if isinstance(now, (Vec, Str)):
                                if not simp(now.len).eq(simp(n)):
                                    self.ob(sx, now.len == n, "the container iterated over keeps its elements", s.get("line"))
                            elif isinstance(now, Map):
                                if not now.has.eq(cont.has):
                                    self.ob(sx, now.has == cont.has, "the map iterated over keeps its elements", s.get("line"))
                            if held is not None and T0.k in ("ref", "rref"):
                                a, b = self.leafmap(held[1]), self.leafmap(self.load(held[0], sx))
                                if any(not self.same_leaf(a[q], b[q]) for q in a):
                                    raise Unsupported("a map's element is changed through the loop variable")
                            return [sx]
                        o += self.body_res(self.ex(s["b"], s4), inc)
                return o
            s0.assume(z3.And(n >= 0, n < BIG))
            out += self.loop(s, s0, it, extra=[("idx<=len", lambda stx, idx=idx, n=n: z3.And(self.load(idx, stx) >= 0, self.load(idx, stx) <= n))],
                             measure=lambda stx, idx=idx, n=n: n - self.load(idx, stx))
        return out

    # -- state leaves -------------------------------------------------------
    def state_leaves(self, st, roots):
        out = {}
        for r in roots:
            v = st.store.get(r)
            self._sl(v, "", r, out)
        for k, a in st.heap.items():
            out[("heap", k)] = a
        for k, a in st.ghost.items():
            if z3.is_expr(a):
                out[("ghost", k)] = a
        return out

    def _sl(self, v, path, r, out):
        if isinstance(v, Rec):
            for k, x in v.f.items():
                self._sl(x, path + "." + k, r, out)
        elif isinstance(v, Opt):
            out[(r, path + ".has")] = v.has
            self._sl(v.val, path + ".val", r, out)
        elif isinstance(v, Str):
            out[(r, path + ".$base")] = v.base
            out[(r, path + ".$off")] = v.off
            out[(r, path + ".$len")] = v.len
        elif isinstance(v, Vec):
            out[(r, path + ".len")] = v.len
            for p, a in v.data.items():
                out[(r, path + ".[]" + p)] = a
        elif isinstance(v, Map):
            out[(r, path + ".has")] = v.has
            for p, a in v.data.items():
                out[(r, path + ".{}" + p)] = a
        elif isinstance(v, It):
            out[(r, path + ".idx")] = v.idx
        elif isinstance(v, tuple):
            for i, x in enumerate(v):
                self._sl(x, path + "[%d]" % i, r, out)
        else:
            out[(r, path)] = v

    @staticmethod
    def same_leaf(a, b):
        if a is b:
            return True
        if z3.is_expr(a) and z3.is_expr(b):
            return a.eq(b) or (a.sort() == b.sort() and z3.simplify(a).eq(z3.simplify(b)))
        if isinstance(a, tuple) and isinstance(b, tuple) and a and b:
            if a[0] == b[0] and a[0] in ("seq", "arr"):
                return a[1].eq(b[1])
            if a[0] == b[0]:
                return a[1] == b[1]
        if isinstance(a, (LV,)) and isinstance(b, LV):
            return a.root == b.root and a.path == b.path
        if isinstance(a, HLV) and isinstance(b, HLV):
            return a.ref.eq(b.ref) and a.path == b.path
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.lv is not None and b.lv is not None:
            return self_same(a.lv, b.lv)
        return False

    def changed(self, a, b):
        out = set()
        for k, v in b.items():
            if k in a and not self.same_leaf(a[k], v):
                out.add(k)
        return out

    def havoc_leaves(self, st, mod, names):
        """replace modified leaves by fresh symbols; returns description"""
        byroot = {}
        for k in mod:
            if k[0] == "heap":
                st.heap[k[1]] = self.const("H!" + k[1], st.heap[k[1]].sort())
            elif k[0] == "ghost":
                st.ghost[k[1]] = self.const("G!" + k[1], st.ghost[k[1]].sort())
            else:
                byroot.setdefault(k[0], set()).add(k[1])
        for r, paths in byroot.items():
            st.store[r] = self._hl(st.store[r], "", paths, (self.locname.get(r) or "v%s" % r), st, self.loctype.get(r))

    def _hl(self, v, path, paths, nm, st, T):
        if not any(p.startswith(path) for p in paths):
            return v
        if isinstance(v, Rec):
            r = self.db.records.get(v.cls)
            ft = {}
            if r:
                for o, fd in self.field_owner(self.db.types.get(v.cls) or _T(v.cls)):
                    ft[fd["name"]] = fd["t"]
            return Rec(v.cls, {k: self._hl(x, path + "." + k, paths, nm, st, ft.get(k)) for k, x in v.f.items()})
        if isinstance(v, Opt):
            return Opt(self.const(nm + path + ".has", B) if path + ".has" in paths else v.has,
                       self._hl(v.val, path + ".val", paths, nm, st, v.et), v.et, v.kind)
        if isinstance(v, Str):
            if path + ".$base" in paths and (v.base[0] == "arr" or self.spec.arrlit and v.arr() is not None):
                ln = self.const(nm + path + ".len", I)
                st.assume(z3.And(ln >= 0, ln < BIG))
                return Str(("arr", self.const(nm + path, ARR)), iv(0), ln)
            if path + ".$base" in paths:
                t = self.const(nm + path, SEQ)
                st.assume(z3.Length(t) < BIG)
                return Str.seq(t)
            off, ln = v.off, v.len
            if path + ".$off" in paths:
                off = self.const(nm + path + ".off", I)
            if path + ".$len" in paths:
                ln = self.const(nm + path + ".len", I)
                st.assume(z3.And(ln >= 0, ln < BIG))
            return Str(v.base, off, ln)
        if isinstance(v, Vec):
            ln = v.len
            if path + ".len" in paths:
                ln = self.const(nm + path + ".len", I)
                st.assume(z3.And(ln >= 0, ln < BIG))
            return Vec(ln, {p: (self.const(nm + path + p, a.sort()) if path + ".[]" + p in paths else a) for p, a in v.data.items()}, v.et, v.q)
        if isinstance(v, Map):
            return Map(self.const(nm + path + ".has", v.has.sort()) if path + ".has" in paths else v.has,
                       {p: (self.const(nm + path + p, a.sort()) if path + ".{}" + p in paths else a) for p, a in v.data.items()}, v.kt, v.et, v.q)
        if isinstance(v, It):
            return v.new(self.const(nm + path + ".idx", I))
        if isinstance(v, tuple):
            return tuple(self._hl(x, path + "[%d]" % i, paths, nm, st, None) for i, x in enumerate(v))
        if path in paths:
            if z3.is_expr(v):
                c = self.const(nm + path, v.sort())
                if T is not None and T.k in ("int", "char", "enum"):
                    st.assume(self.rng(T, c))
                return c
            if v is None:
                return None
            if isinstance(v, Ptr) and isinstance(v.lv, HLV):
                ref = self.const(nm + path, I)
                st.assume(ref > 0)
                return Ptr(HLV(ref, v.lv.cls, v.lv.path, v.lv.t))
            if isinstance(v, (LV, HLV, Ptr, Clo, FnRef)):
                raise Unsupported("loop rebinds a pointer to a local")
        return v

    def pointer_shapes(self, a, b):
        """a loop may move a pointer between heap objects, but not to another kind of place"""
        for k, v in b.items():
            x = a.get(k)
            if k in a and (isinstance(v, Ptr) or isinstance(x, Ptr)) and not self.same_leaf(x, v):
                ok = isinstance(v, Ptr) and isinstance(x, Ptr) and isinstance(v.lv, HLV) and isinstance(x.lv, HLV) and v.lv.cls == x.lv.cls and v.lv.path == x.lv.path
                if not ok:
                    raise Unsupported("loop changes what a pointer points into")

    def loop(self, s, st, it, extra=(), measure=None):
        """s: loop node; st: state at the loop head; it(st) runs one iteration."""
        line = s.get("line")
        self.tick()
        self.loop_depth += 1
        try:
            # 1. small concrete unrolling when every decision is forced
            u = self.try_unroll(st, it)
            if u is not None:
                return u
            return self.inv_loop(s, st, it, extra, measure)
        finally:
            self.loop_depth -= 1

    def try_unroll(self, st, it, limit=10):
        self.quiet += 1
        env0 = dict(st.env)
        try:
            cur = [st.fork()]
            n = 0
            while cur:
                n += 1
                if n > limit:
                    return None
                nxt = []
                for s in cur:
                    r = it(s)
                    kinds = set(k for k, _, _ in r)
                    if "back" in kinds and len(kinds) > 1:
                        return None
                    if len(r) > 1:
                        return None
                    nxt += [x for k, _, x in r if k == "back"]
                for s in nxt:
                    s.env = dict(env0)
                cur = nxt
        finally:
            self.quiet -= 1
        # replay with obligations recorded
        out = []
        cur = [st]
        while cur:
            nxt = []
            for s in cur:
                for k, v, x in it(s):
                    if k == "back":
                        x.env = dict(env0)
                        nxt.append(x)
                    elif k == "exit":
                        x.env = dict(env0)
                        out.append(("n", None, x))
                    else:
                        out.append((k, v, x))
            cur = nxt
        return out

    def for_all(self, f, st):
        """an invariant kept for arbitrary constants is kept for all values"""
        if isinstance(f, Arbitrary):
            st.assume(f.closed(st))

    def inv_loop(self, s, st, it, extra, measure):
        line = s.get("line")
        roots = list(st.store.keys())
        env0 = dict(st.env)
        entry = st.fork()
        entry_leaves = self.state_leaves(entry, roots)
        # 2. modified leaves: fixpoint
        mod = set()
        self.quiet += 1
        try:
            for _ in range(8):
                h = entry.fork()
                self.havoc_leaves(h, mod, None)
                hl = self.state_leaves(h, roots)
                new = set()
                for k, v, x in it(h):
                    if k == "back":
                        xl = self.state_leaves(x, roots)
                        self.pointer_shapes(hl, xl)
                        new |= self.changed(hl, xl)
                if new <= mod:
                    break
                mod |= new
            else:
                raise Unsupported("loop modifies set did not stabilise")
        finally:
            self.quiet -= 1
        # 3. candidate invariants
        cands = []
        for nm, f in extra:
            cands.append((nm, f))
        if self.spec is None or self.spec.generic_loops:
            cands += self.generic_candidates(entry, mod, roots)
        if self.spec:
            cands += self.spec.loop_candidates(self, s, entry, mod, roots)
        lk = self.loop_key(s)
        if self.hints is not None:
            h = self.hints.get(lk)
            if h is not None:
                cands = [c for c in cands if c[0] in h]
        good = []
        for nm, f in cands:
            try:
                g = f(entry)
            except (Unsupported, KeyError, AttributeError):
                continue
            if g is None:
                continue
            good.append((nm, f, g))
        # hold on entry
        keep = self.filter_provable(entry.pc, [(nm, f, g) for nm, f, g in good])
        cands = [(nm, f) for nm, f, g in keep]
        meas = []
        if measure is not None:
            meas.append(("range", measure))
        if self.spec is None or self.spec.generic_loops:
            meas += self.generic_measures(entry, mod, roots)
        if self.spec:
            meas += self.spec.measures(self, entry, mod, roots)
        # 4. Houdini
        while True:
            h = entry.fork()
            self.havoc_leaves(h, mod, None)
            head = h.fork()
            hyp = []
            for nm, f in cands:
                try:
                    g = f(h)
                except (Unsupported, KeyError, AttributeError):
                    continue
                if g is not None:
                    h.assume(g)
                    self.for_all(f, h)
            n_obs = len(self.obs)
            fk = set(self.failed_keys)
            self.quiet += 1
            headleaves = self.state_leaves(h, roots)
            hh = h.fork()
            try:
                res = it(h)
            finally:
                self.quiet -= 1
            backs = [x for k, _, x in res if k == "back"]
            bad = set()
            okm = [True] * len(meas)
            extra_mod = set()
            for x in backs:
                extra_mod |= self.changed(headleaves, self.state_leaves(x, roots)) - mod
                todo = []
                for i, (nm, f) in enumerate(cands):
                    if i in bad:
                        continue
                    try:
                        g = f(x)
                    except (Unsupported, KeyError, AttributeError):
                        g = z3.BoolVal(False)
                    if g is None:
                        bad.add(i)
                        continue
                    todo.append((i, f, g))
                kept = set(i for i, _, _ in self.filter_provable(x.pc, todo))
                for i, _, _ in todo:
                    if i not in kept:
                        bad.add(i)
            if extra_mod:
                mod |= extra_mod
                continue
            if not bad:
                break
            cands = [c for i, c in enumerate(cands) if i not in bad]
        # 5. final run with obligations recorded
        h = entry.fork()
        self.havoc_leaves(h, mod, None)
        for nm, f in cands:
            try:
                g = f(h)
            except (Unsupported, KeyError, AttributeError):
                continue
            if g is not None:
                h.assume(g)
                self.for_all(f, h)
        hsnap = h.fork()
        res = it(h)
        out = []
        backs = []
        for k, v, x in res:
            if k == "back":
                backs.append(x)
                if self.spec:
                    self.iter0 = hsnap
                    self.spec.path_end(self, x, "loop")
            elif k == "exit":
                x.env = dict(env0)
                out.append(("n", None, x))
            else:
                out.append((k, v, x))
        if not self.quiet:
            # every surviving candidate is an obligation that was discharged above
            for nm, f in cands:
                o = Obligation(self.curfn, "loop invariant kept: " + nm, line, ("invariant",))
                o.status = "ok"; o.backend = "z3"
                self.obs.append(o)
            self.loops.append((lk, [nm for nm, _ in cands]))
        # 6. termination
        if backs and not self.quiet and not getattr(self, "endless", False):
            done = False
            for nm, m in meas:
                ok = True
                for x in backs:
                    try:
                        a, b = m(hsnap), m(x)
                    except (Unsupported, KeyError, AttributeError):
                        ok = False
                        break
                    if smt.prove(x.pc, z3.And(b < a, a >= 0), self.spec_depth, 2000, use_cvc5=False)[0] != "ok":
                        ok = False
                        break
                if ok:
                    done = nm
                    break
            o = Obligation(self.curfn, "loop terminates" + (" (%s decreases)" % done if done else ""), line, ("termination",))
            o.status = "ok" if done else "fail"
            o.backend = "z3"
            o.trace = backs[0].trace
            if not done:
                o.state = backs[0]; o.goal = z3.BoolVal(False)
            self.obs.append(o)
        return out

    hints = None
    _lk = {}

    def loop_key(self, s):
        """stable name of a loop: enclosing function + ordinal in it"""
        k = self.callstack[-1] if self.callstack else "?"
        if k not in self._lk:
            order = {}
            f = self.db.functions.get(k)

            def walk(x):
                if isinstance(x, dict):
                    if x.get("k") in ("while", "do", "for", "rangefor"):
                        order[id(x)] = len(order)
                    for y in x.values():
                        if isinstance(y, (dict, list)):
                            walk(y)
                elif isinstance(x, list):
                    for y in x:
                        if isinstance(y, (dict, list)):
                            walk(y)
            if f is not None:
                walk(f.get("body"))
            self._lk[k] = order
        return "%s#%s" % (k, self._lk[k].get(id(s), "?"))

    def filter_provable(self, pc, items):
        """subset of (id, f, goal) provable from pc (batched)"""
        out = []
        items = list(items)
        if not items:
            return out
        todo = []
        for it in items:
            g = simp(it[2])
            if z3.is_true(g):
                out.append(it)
            elif z3.is_false(g):
                continue
            else:
                todo.append(it)
        if not todo:
            return out
        fs = list(pc) + [it[2] for it in todo]
        inst = smt.unfold(fs, self.spec_depth)
        s = smt.mksolver(2000)
        for f in pc:
            s.add(f)
        for f in inst:
            s.add(f)
        t0 = time.time()
        # Houdini step: refute as many as possible with each model
        cur = list(todo)
        while cur:
            s.push()
            s.add(z3.Or(*[z3.Not(it[2]) for it in cur]))
            r = s.check()
            smt.STAT["queries"] += 1
            if r == z3.unsat:
                s.pop()
                out += cur
                break
            if r == z3.sat:
                m = s.model()
                nxt = [it for it in cur if not z3.is_false(m.eval(it[2], model_completion=True))]
                s.pop()
                if len(nxt) < len(cur):
                    cur = nxt
                    continue
            else:
                s.pop()
            # undecided: one by one
            for it in cur:
                s.push()
                s.add(z3.Not(it[2]))
                r = s.check()
                smt.STAT["queries"] += 1
                if r == z3.unsat:
                    out.append(it)
                s.pop()
            break
        smt.STAT["time"] += time.time() - t0
        return out

    def leaf_get(self, st, k):
        if k[0] == "heap":
            return st.heap[k[1]]
        if k[0] == "ghost":
            return st.ghost[k[1]]
        return self.state_leaves_one(st, k)

    def state_leaves_one(self, st, k):
        out = {}
        self._sl(st.store[k[0]], "", k[0], out)
        return out[k]

    def generic_candidates(self, entry, mod, roots):
        el = self.state_leaves(entry, roots)
        ints = [k for k in mod if k[0] not in ("heap",) and k in el and z3.is_expr(el[k]) and el[k].sort() == I]
        bools = [k for k in mod if k[0] not in ("heap",) and k in el and z3.is_expr(el[k]) and el[k].sort() == B]
        out = []
        ints.sort(key=str)
        for k in ints:
            e0 = el[k]
            out.append(("%s >= entry" % self.leafname(k), lambda st, k=k, e0=e0: self.leaf_get(st, k) >= e0))
            out.append(("%s <= entry" % self.leafname(k), lambda st, k=k, e0=e0: self.leaf_get(st, k) <= e0))
        for k in bools:
            e0 = el[k]
            out.append(("%s == entry" % self.leafname(k), lambda st, k=k, e0=e0: self.leaf_get(st, k) == e0))
        if len(ints) <= 12:
            for a in range(len(ints)):
                for b in range(a + 1, len(ints)):
                    ka, kb = ints[a], ints[b]
                    ea, eb = el[ka], el[kb]
                    out.append(("%s, %s in step" % (self.leafname(ka), self.leafname(kb)),
                                lambda st, ka=ka, kb=kb, ea=ea, eb=eb: self.leaf_get(st, ka) - ea == self.leaf_get(st, kb) - eb))
                    out.append(("%s, %s opposite" % (self.leafname(ka), self.leafname(kb)),
                                lambda st, ka=ka, kb=kb, ea=ea, eb=eb: self.leaf_get(st, ka) - ea == eb - self.leaf_get(st, kb)))
        # upper bounds by unmodified int leaves / lengths
        ubs = []
        for k, v in el.items():
            if k in mod or k[0] == "heap":
                continue
            if z3.is_expr(v) and v.sort() == I:
                T = self.loctype.get(k[0])
                ubs.append((k, v))
        ubs = ubs[-12:]
        for k in ints[:8]:
            for ku, u in ubs:
                if u.eq(el[k]):
                    continue
                out.append(("%s <= %s" % (self.leafname(k), self.leafname(ku)), lambda st, k=k, u=u: self.leaf_get(st, k) <= u))
        return out

    def leafname(self, k):
        if k[0] in ("heap", "ghost"):
            return k[1]
        return (self.locname.get(k[0]) or "v%s" % k[0]) + str(k[1])

    def generic_measures(self, entry, mod, roots):
        el = self.state_leaves(entry, roots)
        out = []
        ints = [k for k in mod if k[0] != "heap" and k in el and z3.is_expr(el[k]) and el[k].sort() == I]
        ubs = [v for k, v in el.items() if k not in mod and k[0] != "heap" and z3.is_expr(v) and v.sort() == I][-12:]
        for k in ints[:8]:
            out.append((self.leafname(k), lambda st, k=k: self.leaf_get(st, k)))
            for u in ubs:
                out.append(("%s up to bound" % self.leafname(k), lambda st, k=k, u=u: u - self.leaf_get(st, k)))
        return out


_MAPF = {}


def _mapf(has):
    s = has.sort()
    k = str(s)
    if k not in _MAPF:
        n = str(s.domain())
        _MAPF[k] = (z3.Function("map.card:" + n, s, I), z3.Function("map.key:" + n, s, I, s.domain()), z3.Function("map.pos:" + n, s, s.domain(), I))
    return _MAPF[k]


class Arbitrary:
    """a candidate invariant about arbitrary constants ks (nothing else may be assumed of them than what holds of every value)"""
    def __init__(self, ks, body, *pats):
        self.ks, self.body, self.pats = ks, body, pats

    def __call__(self, st):
        return self.body(st, *self.ks)

    def closed(self, st):
        return closed(self.ks, lambda *x: self.body(st, *x), [lambda *x, p=p: p(st, *x) for p in self.pats])


def closed(ks, body, pats):
    """body for all values, with those of the patterns a solver can match"""
    xs = [z3.Const("all_" + k.decl().name(), k.sort()) for k in ks]
    ps = []
    for p in pats:
        t = p(*xs)
        ts = list(t) if isinstance(t, (tuple, list)) else [t]
        if not any(has_choice(x) for x in ts):
            ps.append(z3.MultiPattern(*ts) if len(ts) > 1 else ts[0])
    return z3.ForAll(xs, body(*xs), patterns=ps) if ps else z3.ForAll(xs, body(*xs))


def has_choice(t):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE) or z3.is_quantifier(x):
            return True
        todo += x.children()
    return False


def mapcard(has):
    """number of keys of a container in which each key occurs once"""
    return _mapf(has)[0](has)


def mapkey(has, i):
    """the i-th key in iteration order"""
    return _mapf(has)[1](has, i)


def mappos(has, k):
    """where in iteration order a key of the container comes"""
    return _mapf(has)[2](has, k)


def mapfacts(has, k):
    """what an enumeration of the keys is, for one key"""
    p = mappos(has, k)
    return z3.And(mapcard(has) >= 0, z3.Implies(z3.Select(has, k), z3.And(0 <= p, p < mapcard(has), mapkey(has, p) == k)))


def mapenum(has):
    """the same for every key"""
    k = z3.Const("all_key", has.sort().domain())
    return z3.ForAll([k], mapfacts(has, k), patterns=[mappos(has, k)])


def self_same(a, b):
    if isinstance(a, HLV) and isinstance(b, HLV):
        return a.ref.eq(b.ref) and a.cls == b.cls and a.path == b.path
    return isinstance(a, LV) and isinstance(b, LV) and a.root == b.root and a.path == b.path


class _T:
    def __init__(self, n):
        self.n = n; self.k = "rec"


class Ctx:
    """view of a call / function activation for contracts"""

    def __init__(self, ex, st, this, args, contract, old):
        self.ex = ex; self.st = st; self.this = this; self.args = args
        self.contract = contract; self.old = old; self.ret = None
        self.assuming = False     # a caller relies on the contract (else the body is being proved)

    def forall(self, k, body, pattern):
        """body for every integer k: k itself (an arbitrary constant) when proving, quantified when assuming"""
        if not self.assuming:
            return body
        x = z3.Int("all_%s" % k.decl().name())
        return z3.ForAll([x], z3.substitute(body, (k, x)), patterns=[z3.substitute(pattern, (k, x))])

    def forall2(self, k, j, body, pk, pj):
        """the same for two variables"""
        if not self.assuming:
            return body
        x, y = z3.Int("all_%s" % k.decl().name()), z3.Int("all_%s" % j.decl().name())
        sub = lambda t: z3.substitute(t, (k, x), (j, y))
        return z3.ForAll([x, y], sub(body), patterns=[z3.MultiPattern(sub(pk), sub(pj))])

    def path(self, lv, p):
        for x in p.split("."):
            if x:
                if isinstance(lv, HLV):
                    raise Unsupported("heap path")
                lv = lv.field(x)
        return lv

    def get(self, p, st=None):
        """value of a path below this, e.g. 'Cur.Offset'"""
        return self.ex.load(self.path(self.this, p), st or self.st)

    def oldv(self, p):
        return self.get(p, self.old or self.st)

    def arg(self, i, st=None):
        a = self.args[i]
        if isinstance(a, (LV, HLV)):
            if isinstance(a, HLV) and not a.path:
                return a
            return self.ex.load(a, st or self.st)
        return a

    def oldarg(self, i):
        return self.arg(i, self.old)


class Contract:
    q = None
    scc = None
    nparams = None
    trusted = False
    outcomes = (None,)   # the ways the function returns that a caller tells apart
    endless = False      # serves until told to stop: no loop termination is asked for

    def applies(self, ex, e):
        if self.nparams is not None and len(e.get("pt", [])) != self.nparams:
            return False
        return True

    def requires(self, c):
        return []

    def modifies(self, c):
        return []

    def ensures(self, c):
        return []

    def measure(self, c):
        return None

    def setup(self, c):
        """extra assumptions/ghost set-up when verifying the body"""

    def after(self, c):
        pass

    def shortcut(self, c):
        """results of a call whose effect follows from the contract without a new state"""
        return None

    def overload(self, name, f):
        """is f the overload called name (functions of one name under one contract)"""
        return len(f["params"]) == int(name)

    may_not_return = False

    def cases(self, c):
        """conditions that split the proof: n of them make n + 1 cases ("function@0" to "function@n"), each under its condition and the negation of those before"""
        return []

    ghost_ok = False

    def frame(self, c):
        """everything not listed in modifies is unchanged"""
        if c.old is None:
            return
        ex = c.ex
        allowed, objs = [], []
        cur = c.st
        c.st = c.old
        try:
            mods = self.modifies(c)
        finally:
            c.st = cur
        for l in mods:
            if isinstance(l, LV):
                pre = ""
                for p in l.path:
                    pre += "." + str(p[1]) if p[0] == "f" else ""
                allowed.append((l.root, pre))
            elif isinstance(l, str):
                allowed.append(("heap", l))
            elif isinstance(l, HLV):
                objs.append(l)
        roots = list(c.old.store.keys())
        a = ex.state_leaves(c.old, roots)
        b = ex.state_leaves(c.st, roots)
        for k in sorted(ex.changed(a, b), key=str):
            if k[0] == "ghost" and (self.ghost_ok or not k[1].startswith("diag:")):
                continue
            if any(k[0] == r and str(k[1]).startswith(p) for r, p in allowed):
                continue
            x, y = a[k], b[k]
            if k[0] == "heap" and z3.is_expr(x) and z3.is_array(x):
                # other objects that existed before keep this field
                r = ex.const("frame", I)
                g = [r != o.ref for o in objs if k[1] == ex.hname(o.cls, o.path) or k[1].startswith(ex.hname(o.cls, o.path) + ".")]
                old = ex.spec.existed(ex, c.old, r)
                if g or old is not None:
                    ex.ob(c.st, z3.Implies(z3.And(*(g + ([old] if old is not None else []))), z3.Select(x, r) == z3.Select(y, r)), "frame: %s of other objects unchanged" % ex.leafname(k), None, ("frame",), assume=False)
                    continue
            if z3.is_expr(x) and z3.is_expr(y) and x.sort() == y.sort():
                ex.ob(c.st, x == y, "frame: %s unchanged" % ex.leafname(k), None, ("frame",), assume=False)
            else:
                ex.ob(c.st, z3.BoolVal(False), "frame: %s unchanged" % ex.leafname(k), None, ("frame",), assume=False)

    def result(self, c, T, e):
        if T.k == "void":
            return UNIT
        if T.k in ("ref", "rref"):
            T = T.to
        if e is not None and e.get("vc") in ("l", "x"):
            if c.ex.heapclass(T):
                r = c.ex.const("ret", I)
                return HLV(r, T.n, (), T)
            return c.ex.newloc(c.st, c.ex.fresh(T, "ret", c.st), T)
        return c.ex.fresh(T, "ret", c.st)

    def requires_list(self, c):
        return [self._n(x) for x in self.requires(c)]

    def ensures_list(self, c):
        return [self._n(x) for x in self.ensures(c)]

    @staticmethod
    def _n(x):
        if len(x) == 2:
            return (x[0], x[1], ("post",))
        return x
