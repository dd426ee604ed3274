"""Assumed contracts for the C++ standard library and LLVM (models).

Each model is an executable specification of the library call; they are the
trusted base listed in the evidence (names collected in ex.assumed)."""
import z3
from .vals import *
from .exec import STRQ, OPTQ, VECQ, PTRQ, MAPQ, SETQ, BIG, Ctx
from . import smt

NPOS = (1 << 64) - 1


def b2i(v):
    return z3.If(v, iv(1), iv(0)) if z3.is_expr(v) and v.sort() == B else v


def rngc(c, a, b):
    return z3.And(c >= ord(a), c <= ord(b))


def isdigit(c): return rngc(c, "0", "9")
def isupper(c): return rngc(c, "A", "Z")
def islower(c): return rngc(c, "a", "z")
def isalpha(c): return z3.Or(isupper(c), islower(c))
def isalnum(c): return z3.Or(isalpha(c), isdigit(c))
def isspace(c): return z3.Or(c == 32, z3.And(c >= 9, c <= 13))
def isprint(c): return z3.And(c >= 32, c < 127)
def isxdigit(c): return z3.Or(isdigit(c), rngc(c, "a", "f"), rngc(c, "A", "F"))


CT = {"isdigit": isdigit, "isalpha": isalpha, "isalnum": isalnum, "isspace": isspace, "isupper": isupper,
      "islower": islower, "isprint": isprint, "isxdigit": isxdigit}


def str_eq(ex, a, b, st=None):
    """formula: string values equal"""
    ca, cb = a.concrete(), b.concrete()
    if ca is not None and cb is not None:
        return z3.BoolVal(ca == cb)
    if ca is not None:
        a, b, ca, cb = b, a, cb, ca
    if cb is not None:
        if a.base[0] == "seq" and not len(cb):
            return a.len == 0
        if a.base[0] == "seq" and simp(a.off).eq(iv(0)) and len(cb) > 12:
            return ex.as_seq(a) == ex.as_seq(b)
        return z3.And(a.len == len(cb), *[a.at(iv(i)) == b.at(iv(i)) for i in range(len(cb))])
    if a.base[0] == b.base[0] and a.base[1] is b.base[1] and simp(a.off).eq(simp(b.off)) and simp(a.len).eq(simp(b.len)):
        return z3.BoolVal(True)
    return ex.as_seq(a) == ex.as_seq(b)


def prefix_at(ex, a, i, p):
    """a[i..] starts with p"""
    cp = p.concrete()
    if cp is not None:
        return z3.And(a.len - i >= len(cp), i >= 0, *[a.at(i + k) == p.at(iv(k)) for k in range(len(cp))])
    return z3.PrefixOf(ex.as_seq(p), ex.as_seq(Str(a.base, a.off + i, a.len - i)))


def zmin(a, b): return simp(z3.If(a <= b, a, b))
def zmax(a, b): return simp(z3.If(a >= b, a, b))


class Models:
    noreturn = ()      # functions that end the process and are modelled
    globals = {
        "std::basic_string_view<char>::npos": lambda ex, st: iv(NPOS),
        "std::basic_string_view::npos": lambda ex, st: iv(NPOS),
        "std::basic_string::npos": lambda ex, st: iv(NPOS),
        "std::__cxx11::basic_string::npos": lambda ex, st: iv(NPOS),
        "llvm::StringRef::npos": lambda ex, st: iv(NPOS),
        "std::nullopt": lambda ex, st: Rec("std::nullopt_t", {}),
    }

    # ------------------------------------------------------------------ API
    def call(self, ex, e, st):
        q = e.get("clsq")
        name = e["name"]
        if q is not None:
            r = None
            if q in STRQ:
                r = self.m_string
            elif q in OPTQ or q in ("std::_Optional_base", "llvm::Expected"):
                r = self.m_optional
            elif q in VECQ or q.startswith("llvm::SmallVector") or q in ("std::_Vector_base", "llvm::SmallVectorTemplateCommon", "llvm::SmallVectorBase", "llvm::SmallVectorTemplateBase"):
                r = self.m_vector
            elif q in PTRQ or q in ("std::__shared_ptr", "std::__shared_ptr_access"):
                r = self.m_ptr
            elif q in MAPQ or q in SETQ:
                r = self.m_map
            elif q in ("__gnu_cxx::__normal_iterator", "std::_Deque_iterator", "std::reverse_iterator"):
                r = self.m_iter
            elif q in ("std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator", "std::__detail::_Node_iterator", "std::__detail::_Node_const_iterator", "std::__detail::_Node_iterator_base", "llvm::iterator_facade_base", "llvm::StringMapIterator", "llvm::StringMapConstIterator"):
                r = self.m_mapiter
            elif q.startswith("llvm::iterator_facade_base<") and q.endswith("::PointerProxy"):
                r = self.m_proxy
            elif q == "llvm::Error":
                r = self.m_error
            elif q in ("std::initializer_list",):
                r = self.m_vector
            if r is not None:
                x = self.run(ex, e, st, r)
                if x is not None:
                    ex.assumed.add("model:%s::%s" % (q, name))
                    return x
            x = self.extra_method(ex, e, st, q, name)
            if x is not None:
                ex.assumed.add("model:%s::%s" % (q, name))
            return x
        fq = e["q"]
        x = self.free(ex, e, st, fq, name)
        if x is not None:
            ex.assumed.add("model:" + fq)
        return x

    def extra_method(self, ex, e, st, q, name):
        return None

    def call_values(self, ex, q, av, st, e):
        n = q.split("::")[-1]
        if n in CT:
            return [(b2i(CT[n](self.val(ex, av[0], st))), st)]
        return None

    def run(self, ex, e, st, f):
        out = []
        for o, s in ex.obj_lv(e["obj"], e.get("arrow"), st, e.get("line")) if "obj" in e else [(None, st)]:
            for av, s2 in ex.args_for(e, s):
                r = f(ex, e, s2, o, av)
                if r is None:
                    return None
                out += r
        return out

    def val(self, ex, a, st):
        if isinstance(a, (LV, HLV)):
            if isinstance(a, HLV) and not a.path:
                return a
            return ex.load(a, st)
        return a

    def tostr(self, ex, v, st):
        v = self.val(ex, v, st)
        if isinstance(v, Str):
            return v
        if isinstance(v, It) :
            raise Unsupported("string from iterator")
        if z3.is_expr(v) and v.sort() == I:
            raise Unsupported("string from integer pointer")
        raise Unsupported("not a string: %r" % type(v).__name__)

    # -------------------------------------------------------------- strings
    def m_string(self, ex, e, st, o, av):
        n = e["name"]
        line = e.get("line")
        v = ex.load(o, st) if o is not None else None
        if v is not None and not isinstance(v, Str):
            if v is None:
                raise Unsupported("uninitialised string")
            raise Unsupported("string object is %r" % type(v).__name__)

        def A(i):
            return self.val(ex, av[i], st)
        if n in ("size", "length"):
            return [(v.len, st)]
        if n == "empty":
            return [(v.len == 0, st)]
        if n in ("operator[]", "at"):
            i = A(0)
            if n == "at":
                ex.ob(st, i < v.len, "string index in range (at)", line)
            elif e.get("cls", "").startswith("std::basic_string<"):
                ex.ob(st, z3.And(i >= 0, i <= v.len), "string index in range", line)
                if not ex.provable(st, i < v.len):
                    c = z3.If(i == v.len, iv(0), v.at(i))
                    st.assume(z3.And(v.at(i) >= -128, v.at(i) <= 127))
                    return [(ex.newloc(st, c), st)]
            else:
                ex.ob(st, z3.And(i >= 0, i < v.len), "string index in range", line)
            c = v.at(i)
            if not is_const_int(simp(c)):
                st.assume(z3.And(c >= -128, c <= 127))
            if e.get("vc") == "r":
                return [(c, st)]
            if e["t"].const or e.get("vc") != "l" or isinstance(o, HLV):
                return [(ex.newloc(st, c, e["t"]), st)]
            return [(o.index(i, e["t"]), st)]
        if n in ("front", "back"):
            ex.ob(st, v.len > 0, "string not empty (%s)" % n, line)
            c = v.at(iv(0) if n == "front" else v.len - 1)
            if not is_const_int(simp(c)):
                st.assume(z3.And(c >= -128, c <= 127))
            return [(ex.newloc(st, c, e["t"]), st)]
        if n in ("data", "c_str"):
            return [(v, st)]
        if n in ("begin", "cbegin", "end", "cend"):
            isend = "end" in n
            if e["t"].k == "ptr":
                # raw char pointer
                return [(Str(v.base, v.off + v.len, iv(0)) if isend else v, st)]
            return [(It(o, v.len if isend else iv(0)), st)]
        if n in ("rbegin", "crbegin", "rend", "crend") and e["t"].k != "ptr":
            return [(RIt(o, iv(0) if "end" in n else v.len), st)]
        if n == "insert" and len(av) == 2 and isinstance(A(0), It) and z3.is_expr(A(1)):
            i = A(0)
            if not isinstance(i.cont, LV) or not isinstance(o, LV) or (i.cont.root, i.cont.path) != (o.root, o.path):
                raise Unsupported("insertion at an iterator of another string")
            ex.ob(st, z3.And(i.pos() >= 0, i.pos() <= v.len), "insert position in range", line)
            if v.base[0] == "arr":
                ex.store(o, self.splice(ex, v, simp(i.pos()), iv(0), A(1)), st)
            else:
                p = i.pos()
                ex.store(o, Str.seq(cat(cat(self.as_seq(ex, Str(v.base, v.off, p)), z3.Unit(A(1))), self.as_seq(ex, Str(v.base, v.off + p, v.len - p)))), st)
            return [(It(o, i.pos()), st)]
        if n == "substr" or n == "slice" or n == "drop_front" or n == "take_front" or n == "drop_back" or n == "take_back":
            if n == "substr" and e["clsq"] != "llvm::StringRef":
                p = A(0) if len(av) > 0 else iv(0)
                m = A(1) if len(av) > 1 else iv(NPOS)
                ex.ob(st, p <= v.len, "substr position in range", line)
                m = zmin(m, v.len - p)
                if ex.provable(st, m == (self.val(ex, av[1], st) if len(av) > 1 else v.len - p)):
                    m = self.val(ex, av[1], st) if len(av) > 1 else v.len - p
                r = Str(v.base, simp(v.off + p), simp(m))
                return [(r, st)]
            if n == "substr":
                p = zmin(A(0), v.len)
                m = zmin(A(1) if len(av) > 1 else iv(NPOS), v.len - p)
                return [(self.sub(ex, v, p, m, st), st)]
            if n == "slice":
                p = zmin(A(0), v.len)
                q2 = zmin(zmax(A(1), p), v.len)
                return [(self.sub(ex, v, p, q2 - p, st), st)]
            k = A(0) if av else iv(1)
            if n in ("drop_front", "drop_back"):
                ex.ob(st, k <= v.len, "%s count in range" % n, line)
                return [(Str(v.base, v.off + (k if n == "drop_front" else 0), v.len - k), st)]
            k = zmin(k, v.len)
            return [(self.sub(ex, v, iv(0) if n == "take_front" else v.len - k, k, st), st)]
        if n in ("starts_with", "startswith", "ends_with", "contains"):
            a = A(0)
            if z3.is_expr(a):   # char
                if n == "contains":
                    return self.contains_char(ex, v, a, st)
                return [(z3.And(v.len > 0, v.at(iv(0) if n == "starts_with" else v.len - 1) == a), st)]
            a = self.tostr(ex, a, st)
            if n == "starts_with":
                return [(prefix_at(ex, v, iv(0), a), st)]
            if n == "ends_with":
                c = a.concrete()
                if c is None:
                    raise Unsupported("ends_with symbolic")
                return [(prefix_at(ex, v, v.len - len(c), a), st)]
            raise Unsupported("contains(string)")
        if n in ("find", "find_first_of", "rfind", "find_last_of", "find_first_not_of"):
            a = A(0)
            pos = A(1) if len(av) > 1 else None
            if pos is None:
                pos = iv(0)
            if n == "find" and z3.is_expr(a):
                return [(self.find(ex, v, lambda c: c == a, pos, st), st)]
            if n == "find":
                a = self.tostr(ex, a, st)
                return [(self.findstr(ex, v, a, pos, st), st)]
            if n in ("find_first_of", "find_first_not_of"):
                if z3.is_expr(a):
                    p = lambda c: c == a
                else:
                    a = self.tostr(ex, a, st)
                    cc = a.concrete()
                    if cc is None:
                        raise Unsupported("find_first_of symbolic set")
                    p = lambda c: z3.Or(*[c == (x - 256 if x > 127 else x) for x in cc])
                if n == "find_first_not_of":
                    return [(self.find(ex, v, lambda c: z3.Not(p(c)), pos, st), st)]
                return [(self.find(ex, v, p, pos, st), st)]
            raise Unsupported("string " + n)
        if n in ("compare", "equals"):
            if n == "equals" or len(av) == 1:
                eq = str_eq(ex, v, self.tostr(ex, av[0], st))
                if n == "equals":
                    return [(eq, st)]
                r = ex.const("cmp", I)
                st.assume((r == 0) == eq)
                return [(r, st)]
        if n == "str":
            return [(v, st)]
        if n in ("operator basic_string_view", "operator std::string_view", "operator StringRef", "operator basic_string") or n.startswith("operator basic_string") or n.startswith("operator std::"):
            return [(v, st)]
        # mutators
        if ex.spec.arrlit and v.base[0] == "lit":
            v = v.arr() or v
        if ex.spec.arrstr and v.base[0] == "lit" and n in ("append", "operator+=") and len(av) == 1 and isinstance(A(0), Str) and A(0).base[0] == "arr":
            v = v.arr() or v
        if v.base[0] == "arr" and n in ("append", "operator+=", "push_back", "replace", "insert", "erase"):
            if n in ("append", "operator+=", "push_back"):
                if len(av) != 1:
                    raise Unsupported("string append form")
                p, m, x = v.len, iv(0), A(0)
            elif z3.is_expr(A(0)) and len(av) == {"replace": 3, "insert": 2, "erase": 2}[n]:
                p = A(0)
                ex.ob(st, p <= v.len, "%s position in range" % n, line)
                m = iv(0) if n == "insert" else zmin(A(1), v.len - p)
                x = Str.lit(b"") if n == "erase" else A(len(av) - 1)
            else:
                raise Unsupported("string %s form" % n)
            ex.store(o, self.splice(ex, v, simp(p), simp(m), x), st)
            return [(UNIT if n == "push_back" else o, st)]
        if n in ("append", "operator+=", "push_back"):
            s = self.as_seq(ex, v)
            if len(av) == 2 and z3.is_expr(A(0)):
                k = simp(A(0))
                if is_const_int(k):
                    add = z3.Concat(*([z3.Unit(A(1))] * ival(k))) if ival(k) > 1 else (z3.Unit(A(1)) if ival(k) else z3.Empty(SEQ))
                else:
                    add = rep(A(1), k)
            elif len(av) == 1 and z3.is_expr(A(0)):
                add = z3.Unit(A(0))
            elif len(av) == 1:
                add = self.as_seq(ex, self.tostr(ex, av[0], st))
            elif len(av) == 2 and isinstance(A(0), It):
                a, b = A(0), A(1)
                base = self.tostr(ex, a.cont, st)
                add = self.as_seq(ex, Str(base.base, base.off + a.idx, b.idx - a.idx))
            elif len(av) == 2 and isinstance(A(0), Str):
                a = A(0)
                add = self.as_seq(ex, Str(a.base, a.off, A(1)))
            else:
                raise Unsupported("string append form")
            ex.store(o, Str.seq(cat(s, add)), st)
            return [(o, st)]
        if n in ("operator=", "assign"):
            a = A(0)
            if len(av) == 1 and z3.is_expr(a):
                a = Str.seq(z3.Unit(a))
            elif len(av) == 2 and isinstance(a, It):
                base = self.tostr(ex, a.cont, st)
                a = Str(base.base, base.off + a.idx, A(1).idx - a.idx)
            elif len(av) == 2:
                a = self.tostr(ex, a, st)
                a = Str(a.base, a.off, A(1))
            else:
                a = self.tostr(ex, a, st)
            ex.store(o, a, st)
            return [(o, st)]
        if n == "clear":
            ex.store(o, Str.lit(b""), st)
            return [(UNIT, st)]
        if n in ("reserve", "shrink_to_fit"):
            return [(UNIT, st)]
        if n == "pop_back":
            ex.ob(st, v.len > 0, "pop_back on non-empty string", line)
            ex.store(o, Str(v.base, v.off, v.len - 1), st)
            return [(UNIT, st)]
        if n == "replace" and len(av) == 3 and z3.is_expr(A(0)):
            p, m = A(0), A(1)
            x = self.tostr(ex, av[2], st)
            ex.ob(st, p <= v.len, "replace position in range", line)
            m = zmin(m, v.len - p)
            s = cat(cat(self.as_seq(ex, Str(v.base, v.off, p)), self.as_seq(ex, x)), self.as_seq(ex, Str(v.base, v.off + p + m, v.len - p - m)))
            ex.store(o, Str.seq(s), st)
            return [(o, st)]
        if n == "insert" and len(av) == 2 and z3.is_expr(A(0)):
            p = A(0)
            x = self.tostr(ex, av[1], st)
            ex.ob(st, p <= v.len, "insert position in range", line)
            s = cat(cat(self.as_seq(ex, Str(v.base, v.off, p)), self.as_seq(ex, x)), self.as_seq(ex, Str(v.base, v.off + p, v.len - p)))
            ex.store(o, Str.seq(s), st)
            return [(o, st)]
        if n == "erase" and len(av) in (1, 2) and z3.is_expr(A(0)):
            p = A(0)
            m = A(1) if len(av) > 1 else iv(NPOS)
            ex.ob(st, p <= v.len, "erase position in range", line)
            m = zmin(m, v.len - p)
            s = cat(self.as_seq(ex, Str(v.base, v.off, p)), self.as_seq(ex, Str(v.base, v.off + p + m, v.len - p - m)))
            ex.store(o, Str.seq(s), st)
            return [(o, st)]
        if n == "resize":
            k = A(0)
            if ex.provable(st, k <= v.len):
                ex.store(o, Str(v.base, v.off, k), st)
                return [(UNIT, st)]
            raise Unsupported("growing resize")
        if n in ("remove_prefix", "remove_suffix"):
            k = A(0)
            ex.ob(st, k <= v.len, n + " in range", line)
            ex.store(o, Str(v.base, v.off + (k if n == "remove_prefix" else 0), v.len - k), st)
            return [(UNIT, st)]
        if n == "consume_front":
            p = self.tostr(ex, av[0], st)
            out = []
            for t, s1 in ex.branch(prefix_at(ex, v, iv(0), p), st, line):
                if t:
                    ex.store(o, Str(v.base, v.off + p.len, v.len - p.len), s1)
                out.append((z3.BoolVal(t), s1))
            return out
        if n == "operator==":
            return [(str_eq(ex, v, self.tostr(ex, av[0], st)), st)]
        if n.startswith("~"):
            return [(UNIT, st)]
        return None

    def splice(self, ex, v, p, m, x):
        """v with the m bytes at p replaced by x (a string over an array)"""
        off = simp(v.off)
        if z3.is_expr(x):
            x = Str(("arr", z3.Store(z3.K(I, iv(0)), 0, x)), iv(0), iv(1))
        xs = x.arr()
        if xs is None:
            raise Unsupported("splice of a string that is not an array")
        c = x.concrete()
        n = len(c) if c is not None else 1 if is_const_int(simp(x.len)) and ival(simp(x.len)) == 1 else None
        a = v.base[1]
        if n is not None and simp(p).eq(simp(v.len)):
            for i in range(n):
                a = z3.Store(a, simp(off + p + i), xs.at(iv(i)))
            return Str(("arr", a), off, simp(v.len + n))
        i = z3.Int("sp_i")
        a = z3.Lambda([i], z3.If(i < off + p, a[i], z3.If(i < off + p + xs.len, xs.base[1][xs.off + i - off - p], a[i - xs.len + m])))
        return Str(("arr", a), off, simp(v.len - m + xs.len))

    def as_seq(self, ex, v):
        return ex.as_seq(v)

    def sub(self, ex, v, p, m, st):
        return Str(v.base, simp(v.off + p), simp(m))

    def contains_char(self, ex, v, a, st):
        r = self.find(ex, v, lambda c: c == a, iv(0), st)
        return [(r != NPOS, st)]

    def find(self, ex, v, pred, pos, st):
        c = v.concrete()
        if c is not None and is_const_int(simp(pos)):
            p0 = ival(simp(pos))
            r = iv(NPOS)
            for i in range(len(c) - 1, p0 - 1, -1):
                x = c[i]
                r = z3.If(pred(iv(x - 256 if x > 127 else x)), iv(i), r)
            return simp(r)
        r = ex.const("find", I)
        i = z3.Int("fi!%d" % id(r))
        st.assume(z3.Or(r == NPOS, z3.And(r >= pos, r < v.len, pred(v.at(r)))))
        hi = z3.If(r == NPOS, v.len, r)
        st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= pos, i < hi), z3.Not(pred(v.at(i))))))
        return r

    def findstr(self, ex, v, a, pos, st):
        r = ex.const("find", I)
        i = z3.Int("fi!%d" % id(r))
        st.assume(z3.Or(r == NPOS, z3.And(r >= pos, prefix_at(ex, v, r, a))))
        hi = z3.If(r == NPOS, v.len, r)
        st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= pos, i < hi), z3.Not(prefix_at(ex, v, i, a)))))
        return r

    # ------------------------------------------------------------- optional
    def m_optional(self, ex, e, st, o, av):
        n = e["name"]
        line = e.get("line")
        v = ex.load(o, st)
        if not isinstance(v, Opt):
            raise Unsupported("optional object is %r" % type(v).__name__)
        if n in ("has_value", "operator bool"):
            return [(v.has, st)]
        if n in ("operator*", "operator->", "value", "get"):
            ex.ob(st, v.has, "optional has a value", line)
            l = o.optval(v.et) if isinstance(o, LV) else HLV(o.ref, o.cls, o.path + ("val",), v.et)
            if n == "operator->":
                if v.et.k == "ptr" or v.et.q in PTRQ:
                    return [(l, st)]
                return [(Ptr(l), st)]
            return [(l, st)]
        if n == "value_or":
            d = self.val(ex, av[0], st)
            if isinstance(v.val, Str) or isinstance(d, Str):
                return [(v.val if b else d, s) for b, s in ex.branch(v.has, st, line)]
            return [(self.ite(v.has, v.val, d), st)]
        if n == "reset":
            ex.store(o, Opt(z3.BoolVal(False), v.val, v.et, v.kind), st)
            return [(UNIT, st)]
        if n in ("operator=", "emplace"):
            if n == "emplace":
                out = []
                for x, s in self.make(ex, v.et, av, st, e):
                    ex.store(o, Opt(z3.BoolVal(True), x, v.et, v.kind), s)
                    out.append((o.optval(v.et), s))
                return out
            a = self.val(ex, av[0], st)
            if isinstance(a, Opt):
                ex.store(o, Opt(a.has, a.val, v.et, v.kind), st)
            elif isinstance(a, Rec) and a.cls == "std::nullopt_t":
                ex.store(o, Opt(z3.BoolVal(False), v.val, v.et, v.kind), st)
            else:
                ex.store(o, Opt(z3.BoolVal(True), a, v.et, v.kind), st)
            return [(o, st)]
        if n == "takeError":
            return [(Rec("llvm::Error", {"fail": z3.Not(v.has)}), st)]
        if n.startswith("~"):
            return [(UNIT, st)]
        return None

    def ite(self, c, a, b):
        if z3.is_expr(a) and z3.is_expr(b):
            return z3.If(c, a, b)
        if isinstance(a, Rec):
            return Rec(a.cls, {k: self.ite(c, a.f[k], b.f[k]) for k in a.f})
        raise Unsupported("conditional value")

    def m_error(self, ex, e, st, o, av):
        n = e["name"]
        v = ex.load(o, st)
        if n == "operator bool":
            return [(v.f["fail"], st)]
        if n == "success":
            return [(Rec("llvm::Error", {"fail": z3.BoolVal(False)}), st)]
        if n == "operator=":
            ex.store(o, self.val(ex, av[0], st), st)
            return [(o, st)]
        return None

    # ------------------------------------------------------------- smart ptr
    def m_ptr(self, ex, e, st, o, av):
        n = e["name"]
        line = e.get("line")
        v = ex.load(o, st)
        T = e["obj"]["t"]
        if T.k == "ptr":
            T = T.to
        et = T.targs[0] if T.targs else None
        if n == "get":
            return [(v, st)]
        if n == "operator bool":
            return [(ex.nonnull(v), st)]
        if n == "operator->":
            if isinstance(v, (Ptr,)):
                return [(v, st)]
            ex.ob(st, v != 0, "smart pointer is not null", line)
            return [(v, st)]
        if n == "operator*":
            return [(ex.deref(v, et, st, line), st)]
        if n == "reset":
            nv = self.val(ex, av[0], st) if av else iv(0)
            ex.store(o, nv, st)
            return [(UNIT, st)]
        if n == "release":
            ex.store(o, iv(0), st)
            return [(v, st)]
        if n == "operator=":
            a = av[0]
            nv = self.val(ex, a, st)
            src = e["args"][0]
            ex.store(o, nv, st)
            if src.get("vc") == "x" and isinstance(a, LV) and not (isinstance(o, LV) and a.root == o.root and a.path == o.path):
                ex.store(a, iv(0), st)
            return [(o, st)]
        if n.startswith("~"):
            return [(UNIT, st)]
        return None

    # --------------------------------------------------------------- vectors
    def m_vector(self, ex, e, st, o, av):
        n = e["name"]
        line = e.get("line")
        v = ex.load(o, st)
        if isinstance(v, tuple):
            if n == "size":
                return [(iv(len(v)), st)]
        if not isinstance(v, Vec):
            return None

        def A(i):
            return self.val(ex, av[i], st)
        if n == "size":
            return [(v.len, st)]
        if n == "empty":
            return [(v.len == 0, st)]
        if n in ("operator[]", "at"):
            ex.ob(st, z3.And(A(0) >= 0, A(0) < v.len), "container index in range", line)
            return [(self.elem(ex, o, v, A(0), st), st)]
        if n in ("back", "front", "top"):
            ex.ob(st, v.len > 0, "container not empty (%s)" % n, line)
            return [(self.elem(ex, o, v, simp(v.len - 1) if n != "front" else iv(0), st), st)]
        if n in ("push_back", "emplace_back", "push", "emplace"):
            out = []
            if n in ("push_back", "push"):
                rs = [(self.val(ex, av[0], st), st)]
                if e["args"][0].get("vc") == "x" and isinstance(av[0], LV):
                    ex.moved_from(av[0], v.et, st)
            else:
                rs = self.make(ex, v.et, av, st, e)
            for x, s in rs:
                v2 = ex.load(o, s)
                nv = ex.vec_set(v2, v2.len, x)
                ex.store(o, Vec(v2.len + 1, nv.data, v2.et, v2.q), s)
                out.append((o.index(v2.len, v2.et) if isinstance(o, LV) else UNIT, s))
            return out
        if n in ("pop_back", "pop"):
            ex.ob(st, v.len > 0, "container not empty (%s)" % n, line)
            ex.store(o, Vec(v.len - 1, v.data, v.et, v.q), st)
            return [(UNIT, st)]
        if n == "pop_front":
            ex.ob(st, v.len > 0, "container not empty (%s)" % n, line)
            i = z3.Int("pf_i")
            ex.store(o, Vec(v.len - 1, {p: z3.Lambda([i], z3.Select(a, i + 1)) for p, a in v.data.items()}, v.et, v.q), st)
            return [(UNIT, st)]
        if n == "clear":
            ex.store(o, Vec(iv(0), v.data, v.et, v.q), st)
            return [(UNIT, st)]
        if n in ("reserve", "shrink_to_fit"):
            return [(UNIT, st)]
        if n in ("begin", "cbegin"):
            return [(It(o, iv(0)), st)]
        if n in ("end", "cend"):
            return [(It(o, v.len), st)]
        if n == "operator=":
            a = A(0)
            ex.store(o, Vec(a.len, a.data, v.et, v.q), st)
            return [(o, st)]
        if n == "data":
            return [(It(o, iv(0)), st)]
        if n.startswith("~"):
            return [(UNIT, st)]
        return None

    def elem(self, ex, o, v, i, st):
        if isinstance(o, LV):
            return o.index(i, v.et)
        return ex.newloc(st, ex.vec_get(v, i, st), v.et)

    def make(self, ex, T, av, st, e):
        """construct a T from already evaluated arguments"""
        vals = [self.val(ex, a, st) for a in av]
        if T.k != "rec":
            return [(vals[0] if vals else ex.default(T, st), st)]
        if T.q in STRQ:
            if len(vals) == 1 and isinstance(vals[0], Str):
                return [(vals[0], st)]
            if len(vals) == 0:
                return [(Str.lit(b""), st)]
            raise Unsupported("string construction")
        if T.q in PTRQ:
            if len(vals) == 1:
                if isinstance(av[0], LV):
                    pass
                return [(vals[0], st)]
            return [(iv(0), st)]
        if T.q == "std::pair" and len(vals) == 2:
            return [(Rec("std::pair", {"first": vals[0], "second": vals[1]}), st)]
        if T.q in OPTQ and len(vals) == 1:
            return [(vals[0] if isinstance(vals[0], Opt) else Opt(z3.BoolVal(True), vals[0], T.targs[0]), st)]
        if len(vals) == 1 and isinstance(vals[0], Rec) and vals[0].cls == T.n:
            return [(vals[0], st)]
        f = self.pick_ctor(ex, T, av, vals, e)
        if f is not None:
            loc = ex.newloc(st, Rec(T.n, {}), T)
            args = []
            for p, a, v in zip(f["params"], av, vals):
                if p["t"].k in ("ref", "rref"):
                    args.append(a)
                else:
                    args.append(v)
            ex.obj_under_ctor = T
            out = []
            for kind, x, s in ex.run_fn(f, loc, args, st):
                out.append((s.store[loc.root], s))
            return out
        r = ex.db.records.get(T.n)
        if r is not None and not vals:
            return [(ex.default(T, st), st)]
        if r is not None and not r["bases"] and len(vals) <= len(r["fields"]):
            d = {fd["name"]: v for fd, v in zip(r["fields"], vals)}
            for fd in r["fields"][len(vals):]:
                d[fd["name"]] = ex.default(fd["t"], st, fd.get("init"))
            return [(Rec(T.n, d), st)]
        raise Unsupported("construction of %s from %d arguments" % (T.s, len(av)))

    def pick_ctor(self, ex, T, av, vals, e):
        base = T.n.split("<")[0].split("::")[-1]
        cands = [f for f in ex.db.byq.get(T.n + "::" + base, []) if len(f["params"]) == len(av)]
        if len(cands) <= 1:
            return cands[0] if cands else None
        ats = [a["t"] for a in e["args"]]

        def score(f):
            s = 0
            for p, t, v in zip(f["params"], ats[-len(av):] if av else [], vals):
                pt = p["t"].to if p["t"].k in ("ref", "rref") else p["t"]
                a = pt.s.replace("const ", "")
                b = t.s.replace("const ", "")
                if a == b:
                    s += 2
                elif pt.q in PTRQ and t.q in PTRQ:
                    s += 1
                elif pt.k == t.k:
                    s += 0.5
                else:
                    s -= 5
            return s
        cands.sort(key=score, reverse=True)
        if len(cands) > 1 and score(cands[0]) == score(cands[1]):
            raise Unsupported("ambiguous constructor of " + T.s)
        return cands[0]

    # ------------------------------------------------------------------ maps
    def key(self, ex, k):
        if isinstance(k, Str):
            return ex.as_seq(k)
        if isinstance(k, Ptr):
            raise Unsupported("map key is a local address")
        if isinstance(k, HLV):
            return k.ref
        return k

    def m_map(self, ex, e, st, o, av):
        n = e["name"]
        line = e.get("line")
        v = ex.load(o, st)
        if not isinstance(v, Map):
            return None
        isset = v.et is None

        def A(i):
            return self.val(ex, av[i], st)
        if n in ("contains", "count", "operator[]", "at", "find") and ex.spec:
            ex.spec.map_read(ex, v, self.key(ex, A(0)), st)
        if n in ("contains", "count"):
            c = z3.Select(v.has, self.key(ex, A(0)))
            return [(c if n == "contains" else z3.If(c, iv(1), iv(0)), st)]
        if n == "operator[]":
            k = self.key(ex, A(0))
            out = []
            for t, s in ex.branch(z3.Select(v.has, k), st, line):
                if not t:
                    lm = ex.leafmap(ex.default(v.et, s))
                    ex.store(o, Map(z3.Store(v.has, k, True), {q: z3.Store(a, k, lm[q]) for q, a in v.data.items()}, v.kt, v.et, v.q), s)
                out.append((o.mapval(k, v.et), s))
            return out
        if n == "at":
            k = self.key(ex, A(0))
            ex.ob(st, z3.Select(v.has, k), "map contains the key (at)", line)
            if isinstance(o, LV):
                return [(o.mapval(k, v.et), st)]
            return [(ex.newloc(st, ex.map_get(v, k, st), v.et), st)]
        if n == "find":
            k = self.key(ex, A(0))
            return [(MIt(o, k, z3.Not(z3.Select(v.has, k))), st)]
        if n in ("end", "cend"):
            return [(MIt(o, None, z3.BoolVal(True)), st)]
        if n in ("insert", "emplace", "try_emplace", "insert_or_assign"):
            if isset:
                k = self.key(ex, A(0))
                if isinstance(A(0), It):
                    return None
                ins = z3.Not(z3.Select(v.has, k))
                ex.store(o, Map(z3.Store(v.has, k, True), {}, v.kt, None, v.q), st)
                return [(Rec("std::pair", {"first": MIt(o, k, z3.BoolVal(False)), "second": ins}), st)]
            if n == "insert" and len(av) == 1:
                p = A(0)
                if not (isinstance(p, Rec) and p.cls == "std::pair"):
                    return None
                k = self.key(ex, p.f["first"]); x = p.f["second"]
                rs = [(x, st)]
            else:
                k = self.key(ex, A(0))
                rs = self.make(ex, v.et, av[1:], st, dict(e, args=e["args"][1:]))
            out = []
            for x, s in rs:
                v2 = ex.load(o, s)
                had = z3.Select(v2.has, k)
                lm = ex.leafmap(x)
                if ex.spec:
                    ex.spec.map_write(ex, v2, k, lm, n, s, line)
                if n == "insert_or_assign":
                    data = {q: z3.Store(a, k, lm[q]) for q, a in v2.data.items()}
                else:
                    data = {q: z3.If(had, a, z3.Store(a, k, lm[q])) for q, a in v2.data.items()}
                ex.store(o, Map(z3.Store(v2.has, k, True), data, v2.kt, v2.et, v2.q), s)
                out.append((Rec("std::pair", {"first": MIt(o, k, z3.BoolVal(False)), "second": z3.Not(had)}), s))
            return out
        if n == "erase":
            a = A(0)
            if isinstance(a, MIt):
                ex.ob(st, z3.Not(a.end), "erase of a valid iterator", line)
                ex.store(o, Map(z3.Store(v.has, a.key, False), v.data, v.kt, v.et, v.q), st)
                return [(UNIT, st)]
            k = self.key(ex, a)
            had = z3.Select(v.has, k)
            ex.store(o, Map(z3.Store(v.has, k, False), v.data, v.kt, v.et, v.q), st)
            return [(z3.If(had, iv(1), iv(0)), st)]
        if n == "clear":
            ex.store(o, Map(z3.K(v.has.sort().domain(), z3.BoolVal(False)), v.data, v.kt, v.et, v.q), st)
            return [(UNIT, st)]
        if n == "lookup":
            k = self.key(ex, A(0))
            d = ex.default(v.et, st)
            g = ex.map_get(v, k, st)
            return [(self.ite(z3.Select(v.has, k), g, d), st)]
        if n == "empty":
            ks = v.has.sort().domain()
            return [(v.has == z3.K(ks, z3.BoolVal(False)), st)]
        if n == "reserve":
            return [(UNIT, st)]
        if n == "operator=":
            ex.store(o, A(0), st)
            return [(o, st)]
        return None

    def m_mapiter(self, ex, e, st, o, av):
        n = e["name"]
        v = ex.load(o, st)
        if not isinstance(v, MIt):
            return None
        if n in ("operator->", "operator*"):
            ex.ob(st, z3.Not(v.end), "map iterator is dereferenceable", e.get("line"))
            m = ex.load(v.lv, st)
            if m.et is None:
                return [(ex.newloc(st, self.unkey(m.kt, v.key)), st)]
            pr = Rec("std::pair", {"first": self.unkey(m.kt, v.key), "second": None})
            l = PairLV(v.lv, v.key, m)
            loc = ex.newloc(st, pr)
            # second is an alias of the map's slot
            st.store[loc.root] = Rec("std::pair", {"first": pr.f["first"], "second": ex.map_get(m, v.key, st)})
            if isinstance(v.lv, LV):
                return [(Ptr(MapPairLV(loc.root, v.lv, v.key, m.et)) if n == "operator->" else MapPairLV(loc.root, v.lv, v.key, m.et), st)]
            return [(Ptr(loc) if n == "operator->" else loc, st)]
        return None

    def unkey(self, kt, k):
        if kt.k == "rec" and kt.q in STRQ:
            return Str.seq(k)
        return k

    def m_proxy(self, ex, e, st, o, av):
        if e["name"] == "operator->":
            return [(ex.load(o, st), st)]
        return None

    def m_iter(self, ex, e, st, o, av):
        n = e["name"]
        v = ex.load(o, st)
        if not isinstance(v, It):
            return None
        if n in ("operator*", "operator->"):
            l = ex.it_deref(v, st, e.get("line"))
            return [(l if n == "operator*" else Ptr(l), st)]
        if n in ("operator++", "operator--"):
            d = 1 if n == "operator++" else -1
            nv = v.plus(d)
            ex.store(o, nv, st)
            if av:
                return [(v, st)]
            return [(o, st)]
        if n in ("operator+", "operator-"):
            a = self.val(ex, av[0], st)
            return [(v.plus(a if n == "operator+" else -a), st)]
        if n in ("operator+=", "operator-="):
            a = self.val(ex, av[0], st)
            ex.store(o, v.plus(a if n == "operator+=" else -a), st)
            return [(o, st)]
        if n == "operator[]":
            a = self.val(ex, av[0], st)
            return [(ex.it_deref(v.plus(a), st, e.get("line")), st)]
        if n == "base" and isinstance(v, RIt):
            return [(It(v.cont, v.idx), st)]
        return None

    # ---------------------------------------------------------- free function
    def free(self, ex, e, st, q, name):
        if q in ("std::move", "std::forward", "std::as_const"):
            return ex.lv(e["args"][0], st)
        base = q.split("::")[-1]
        if base in CT and (q.startswith("std::") or "::" not in q or q.startswith("llvm::")):
            return [(b2i(CT[base](self.val(ex, v, s))) if e["t"].k != "bool" else CT[base](self.val(ex, v, s)), s) for v, s in ex.rv(e["args"][0], st)]
        if q in ("llvm::isAlpha", "llvm::isAlnum", "llvm::isDigit", "llvm::isSpace", "llvm::isHexDigit", "llvm::isPrint"):
            f = {"isAlpha": isalpha, "isAlnum": isalnum, "isDigit": isdigit, "isSpace": isspace, "isHexDigit": isxdigit, "isPrint": isprint}[base]
            return [(f(v), s) for v, s in ex.rv(e["args"][0], st)]
        if q in ("std::min", "std::max"):
            out = []
            for av, s in ex.args_for(e, st):
                a, b = self.val(ex, av[0], s), self.val(ex, av[1], s)
                out.append((zmin(a, b) if base == "min" else zmax(a, b), s))
            return out
        if q == "__builtin_expect":
            return ex.rv(e["args"][0], st)
        if q == "std::make_pair":
            out = []
            for av, s in ex.args_for(e, st):
                out.append((Rec("std::pair", {"first": self.val(ex, av[0], s), "second": self.val(ex, av[1], s)}), s))
            return out
        if q in ("std::make_shared", "std::make_unique", "std::__make_shared"):
            T = e["t"].targs[0]
            out = []
            for av, s in ex.args_for(e, st):
                for v, s2 in self.make(ex, T, av, s, e):
                    # moved-from smart pointers
                    for a, node in zip(av, e["args"]):
                        if node.get("vc") == "x" and isinstance(a, LV) and node["t"].q in PTRQ:
                            ex.store(a, iv(0), s2)
                    out.append((ex.alloc(T, v, s2), s2))
            return out
        if base == "__shared_ptr_access":
            return None
        if e.get("op") in ("==", "!=", "<", "+", "<=>", "-", ">", "<=", ">=") or name.startswith("operator") and not name.startswith("operator\"\""):
            return self.free_op(ex, e, st, q, name)
        if q in ("std::static_pointer_cast", "std::dynamic_pointer_cast", "std::const_pointer_cast") and base == "static_pointer_cast":
            return ex.rv(e["args"][0], st)
        if q == "std::begin" or q == "std::end":
            return None
        if base == "countl_one" or base == "countLeadingOnes":
            out = []
            for v, s in ex.rv(e["args"][0], st):
                r = iv(8)
                # unsigned char
                r = z3.If(v < 128, iv(0), z3.If(v < 192, iv(1), z3.If(v < 224, iv(2), z3.If(v < 240, iv(3), z3.If(v < 248, iv(4), z3.If(v < 252, iv(5), z3.If(v < 254, iv(6), z3.If(v < 255, iv(7), iv(8)))))))))
                s.assume(z3.And(v >= 0, v <= 255))
                out.append((r, s))
            return out
        if q == "std::to_string":
            out = []
            for v, s in ex.rv(e["args"][0], st):
                f = smt.SpecFun.reg.get("dec") or smt.SpecFun("dec", [I], SEQ)
                out.append((Str.seq(f(v)), s))
            return out
        return self.extra_free(ex, e, st, q, name)

    def extra_free(self, ex, e, st, q, name):
        return None

    def free_op(self, ex, e, st, q, name):
        op = name.replace("operator", "")
        out = []
        for av, s in ex.args_for(e, st):
            vs = [self.val(ex, a, s) for a in av]
            r = self.op2(ex, op, vs, av, s, e)
            if r is None:
                return None
            out.append((r, s))
        return out

    def op2(self, ex, op, vs, av, st, e):
        if len(vs) != 2:
            return None
        a, b = vs
        if op in ("==", "!="):
            r = self.eq(ex, a, b, st, e)
            if r is None:
                return None
            return r if op == "==" else z3.Not(r)
        if op == "+":
            def s(x):
                if isinstance(x, Str):
                    return ex.as_seq(x)
                return z3.Unit(x)
            if ex.spec.arrstr and isinstance(a, Str) and isinstance(b, Str) and a.arr() is not None and b.arr() is not None:
                a = a.arr()
                return self.splice(ex, Str(a.base, a.off, a.len), a.len, iv(0), b)
            if isinstance(a, Str) or isinstance(b, Str):
                return Str.seq(cat(s(a), s(b)))
            if isinstance(a, It):
                return a.plus(b)
        if op == "-" and isinstance(a, It) and isinstance(b, It):
            return (a.idx - b.idx) * a.step
        if op in ("<", ">", "<=", ">=") and isinstance(a, It):
            return ex.CMP[op](a.idx, b.idx)
        return None

    def eq(self, ex, a, b, st, e):
        if isinstance(a, Str) and isinstance(b, Str):
            return str_eq(ex, a, b)
        if isinstance(b, Opt) and not isinstance(a, Opt):
            a, b = b, a
        if isinstance(a, Opt):
            if isinstance(b, Opt):
                x = self.eq(ex, a.val, b.val, st, e)
                if x is None:
                    return None
                return z3.And(a.has == b.has, z3.Implies(a.has, x))
            if isinstance(b, Rec) and b.cls == "std::nullopt_t":
                return z3.Not(a.has)
            x = self.eq(ex, a.val, b, st, e)
            if x is None:
                return None
            return z3.And(a.has, x)
        if isinstance(a, MIt) and isinstance(b, MIt):
            if a.key is None:
                return b.end if b.key is not None else z3.BoolVal(True)
            if b.key is None:
                return a.end
            return z3.Or(z3.And(a.end, b.end), z3.And(z3.Not(a.end), z3.Not(b.end), a.key == b.key))
        if isinstance(a, It) and isinstance(b, It):
            return a.idx == b.idx
        if z3.is_expr(a) and z3.is_expr(b):
            return ex.cmp("==", a, b, st)
        if isinstance(a, (Ptr, HLV)) or isinstance(b, (Ptr, HLV)):
            return None
        return None

    # ------------------------------------------------------------ constructors
    def construct(self, ex, e, T, st):
        q = T.q
        args = e["args"]
        if q in STRQ:
            return self.c_string(ex, e, T, st)
        if q in OPTQ or q == "llvm::Expected":
            if not args:
                return None
            out = []
            for av, s in ex.args_for(e, st):
                a = self.val(ex, av[0], s)
                kind = "expected" if q == "llvm::Expected" else "optional"
                if isinstance(a, Rec) and a.cls == "std::nullopt_t":
                    out.append((Opt(z3.BoolVal(False), ex.fresh(T.targs[0], "novalue", s), T.targs[0], kind), s))
                elif isinstance(a, Rec) and a.cls == "llvm::Error":
                    ex.ob(s, a.f["fail"], "Expected built from a failure", e.get("line"))
                    out.append((Opt(z3.BoolVal(False), ex.fresh(T.targs[0], "novalue", s), T.targs[0], kind), s))
                elif isinstance(a, Opt) and T.targs[0].q not in OPTQ:
                    out.append((Opt(a.has, a.val, T.targs[0], kind), s))
                else:
                    at = args[0]["t"]
                    out.append((Opt(z3.BoolVal(True), a, T.targs[0], kind), s))
            return out
        if q in PTRQ:
            if not args:
                return [(iv(0), st)]
            out = []
            for av, s in ex.args_for(e, st):
                a = self.val(ex, av[0], s)
                if isinstance(a, Rec):    # nullptr_t etc
                    a = iv(0)
                # converting move
                if args[0].get("vc") == "x" and isinstance(av[0], LV):
                    ex.store(av[0], iv(0), s)
                out.append((a, s))
            ex.assumed.add("model:" + q)
            return out
        if q == "std::nullopt_t":
            return [(Rec("std::nullopt_t", {}), st)]
        if q in VECQ or (q or "").startswith("llvm::SmallVector"):
            if not args:
                return None
            out = []
            for av, s in ex.args_for(e, st):
                a = self.val(ex, av[0], s)
                if isinstance(a, Vec):
                    out.append((Vec(a.len, a.data, T.targs[0], q), s))
                elif z3.is_expr(a) and a.sort() == I and len(av) == 1:
                    v = ex.empty_vec(T.targs[0], q)
                    out.append((Vec(a, v.data, v.et, q), s))
                else:
                    raise Unsupported("vector constructor")
            return out
        if q in MAPQ or q in SETQ:
            if not args:
                return None
        if q == "std::pair":
            if not args:
                return None
            out = []
            for av, s in ex.args_for(e, st):
                if len(av) == 2:
                    fs = []
                    for i, a in enumerate(av):
                        fs.append(self.val(ex, a, s))
                    out.append((Rec("std::pair", {"first": fs[0], "second": fs[1]}), s))
                else:
                    out.append((self.val(ex, av[0], s), s))
            return out
        if q == "std::tuple" and len(args) == len(T.targs):
            return [(Rec(q, {str(i): self.val(ex, a, s) for i, a in enumerate(av)}), s) for av, s in ex.args_for(e, st)]
        if q in ("std::function", "llvm::function_ref", "llvm::unique_function"):
            if len(args) >= 1:
                out = []
                for av, s in ex.args_for(e, st):
                    out.append((self.val(ex, av[0], s), s))
                return out
        if q in ("__gnu_cxx::__normal_iterator", "std::_Deque_iterator", "std::reverse_iterator") and args:
            return [(self.val(ex, av[0], s), s) for av, s in ex.args_for(e, st)]
        if q in ("std::_Rb_tree_const_iterator", "std::_Rb_tree_iterator", "std::__detail::_Node_const_iterator") and args:
            return [(self.val(ex, av[0], s), s) for av, s in ex.args_for(e, st)]
        if q in ("std::allocator", "std::hash", "std::less"):
            return [(Rec(q, {}), st)]
        return self.extra_construct(ex, e, T, st)

    def extra_construct(self, ex, e, T, st):
        return None

    def c_string(self, ex, e, T, st):
        args = [a for a in e["args"] if not (a["t"].k == "rec" and a["t"].q == "std::allocator")]
        ex.assumed.add("model:%s::ctor" % T.q)
        if not args:
            return [(Str.lit(b""), st)]
        e2 = dict(e, args=args)
        out = []
        for av, s in ex.args_for(e2, st):
            vs = [self.val(ex, a, s) for a in av]
            a = vs[0]
            if len(vs) == 1:
                if isinstance(a, Str):
                    out.append((a, s))
                elif isinstance(a, Vec):   # initializer_list<char>
                    n = simp(a.len)
                    if not is_const_int(n):
                        raise Unsupported("string from symbolic list")
                    us = [z3.Unit(z3.simplify(z3.Select(a.data[""], iv(i)))) for i in range(ival(n))]
                    out.append((Str.seq(us[0] if len(us) == 1 else z3.Concat(*us)), s))
                elif z3.is_expr(a) and is_const_int(simp(a)) and ival(simp(a)) == 0:
                    out.append((Str.lit(b""), s))
                else:
                    raise Unsupported("string constructor")
            elif len(vs) == 2 and isinstance(a, Str) and z3.is_expr(vs[1]):
                # (ptr, n)
                n = vs[1]
                ex.ob(s, z3.And(n >= 0, n <= a.len), "byte range of string constructor in bounds", e.get("line"))
                out.append((Str(a.base, a.off, n), s))
            elif len(vs) == 2 and isinstance(a, Str) and isinstance(vs[1], Str):
                # (begin, end) raw pointers into one buffer
                ln = vs[1].off - a.off
                ex.ob(s, z3.And(ln >= 0, ln <= a.len), "byte range of string constructor in bounds", e.get("line"))
                out.append((Str(a.base, a.off, ln), s))
            elif len(vs) == 2 and isinstance(a, It):
                base = self.tostr(ex, a.cont, s)
                out.append((Str(base.base, base.off + a.idx, vs[1].idx - a.idx), s))
            elif len(vs) == 2 and z3.is_expr(a):
                n = simp(a)
                if is_const_int(n):
                    k = ival(n)
                    t = z3.Empty(SEQ) if k == 0 else z3.Unit(vs[1]) if k == 1 else z3.Concat(*([z3.Unit(vs[1])] * k))
                else:
                    t = rep(vs[1], n)
                out.append((Str.seq(t), s))
            else:
                raise Unsupported("string constructor with %d args" % len(vs))
        return out


class PairLV:
    def __init__(self, *a):
        pass


class MapPairLV(LV):
    """l-value of the pair a map iterator points at; .second aliases the map."""
    __slots__ = ("maplv", "key", "et")

    def __init__(self, root, maplv, key, et):
        LV.__init__(self, root, (), None)
        self.maplv = maplv; self.key = key; self.et = et

    def field(self, name, t=None):
        if name == "second":
            return self.maplv.mapval(self.key, self.et)
        return LV(self.root, (("f", name),), t)


def cat(a, b):
    return z3.Concat(a, b)


_rep = None


def rep(c, n):
    """n copies of byte c"""
    global _rep
    if _rep is None:
        _rep = smt.SpecFun("rep", [I, I], SEQ)

        def body(c, n):
            return [z3.If(n <= 0, _rep(c, n) == z3.Empty(SEQ), _rep(c, n) == z3.Concat(_rep(c, n - 1), z3.Unit(c))),
                    z3.Length(_rep(c, n)) == z3.If(n <= 0, 0, n)]
        _rep.body = body
    return _rep(c, n)
