"""Generates well-formed Nix programs together with the tree their grammar
gives them.  Text and tree are produced in one pass, from the language's
grammar alone (no code of /repo is involved)."""

KEYWORDS = {"if", "then", "else", "assert", "with", "let", "in", "rec", "inherit", "or"}
NAMES = ["a", "b", "c", "x", "y", "z", "f", "foo", "foo-bar", "x'", "_u", "lib", "pkgs"]
GLOBALS = ["abort", "map", "import", "toString", "throw", "true", "false", "null", "builtins", "derivation"]
BIN = [("->", 2, "r"), ("||", 3, "l"), ("&&", 4, "l"), ("==", 5, "n"), ("!=", 5, "n"), ("<", 6, "n"), (">", 6, "n"), ("<=", 6, "n"), (">=", 6, "n"),
       ("//", 7, "r"), ("+", 9, "l"), ("-", 9, "l"), ("*", 10, "l"), ("/", 10, "l"), ("++", 11, "r")]
PREC = {o: (p, a) for o, p, a in BIN}
NOT, HAS, NEG = 8, 12, 13
GLUE_L = set("([{;),]}\"")
GLUE_R = set("()[]};,\"")


class NonAssoc(Exception):
    pass


def reduce_ops(items):
    """Shift-reduce parsing of a flat operator sequence with the yacc
    precedence declarations of the Nix language.
    items: ('a', node) | ('b', op, l, r) | ('u', op, l, r) | ('?', l, r, path)"""
    st = []

    def top_rule():
        if len(st) >= 2 and st[-1][0] == "a":
            if st[-2][0] == "u":
                return (NOT, "l") if st[-2][1] == "!" else (NEG, "n")
            if st[-2][0] == "b":
                return PREC[st[-2][1]]
        return None

    def red():
        e = st.pop()[1]
        o = st.pop()
        if o[0] == "u":
            st.append(("a", N("ExprUnaryOp", o[2], e["r"], op=o[1], e=e)))
        else:
            l = st.pop()[1]
            st.append(("a", N("ExprBinOp", l["l"], e["r"], op=o[1], le=l, re=e)))
    for it in items:
        if it[0] in ("b", "?"):
            p = PREC[it[1]][0] if it[0] == "b" else HAS
            while True:
                r = top_rule()
                if r is None:
                    break
                if r[0] > p or (r[0] == p and r[1] == "l"):
                    red()
                elif r[0] == p and r[1] == "n" and it[0] == "b":
                    raise NonAssoc(it[2])
                else:
                    break
            if it[0] == "?":
                e = st.pop()[1]
                st.append(("a", N("ExprOpHasAttr", e["l"], it[2], e=e, path=it[3])))
                continue
        st.append(it)
    while top_rule():
        red()
    assert len(st) == 1
    return st[0][1]


def N(k, l, r, **f):
    f["k"] = k; f["l"] = l; f["r"] = r
    return f


class Gen:
    def __init__(self, rng, names=NAMES, globals_=GLOBALS, trivia=True, merge=False, pglobal=0.12, ops=0.4, undefined=True):
        self.rng = rng; self.out = []; self.pos = 0; self.prev = None; self.end = 0
        self.names = names; self.globals = globals_; self.trivia = trivia; self.merge = merge; self.pglobal = pglobal; self.ops = ops

    # ------------------------------------------------------------ emission
    def raw(self, s):
        self.out.append(s)
        self.pos += len(s)
        self.end = self.pos
        if s:
            self.prev = s

    def sep(self, nxt):
        r = self.rng
        if self.prev is None:
            s = "" if r.random() < 0.8 else r.choice(["\n", " ", "# c\n", "/* c */ "])
        elif (self.prev[-1] in GLUE_L or nxt[0] in GLUE_R) and not getattr(self, "noglue", False) and r.random() < 0.5:
            s = ""
        else:
            s = r.choice([" ", " ", " ", "\n", "  ", "\t", "\n  "])
            if self.trivia and r.random() < 0.12:
                s += r.choice(["# it's a \"comment\" ${\n", "/* x */", "/** '' \" ${ **/", "/* a\n b */ ", "#\r\n", "#}]);\n  ", "\r\n"])
                if s.endswith("*/"):
                    s += r.choice([" ", "\n", ""]) if nxt[0] not in "*/" else " "
        self.noglue = False
        self.out.append(s)
        self.pos += len(s)

    def t(self, s):
        self.sep(s)
        l = self.pos
        self.raw(s)
        return l

    def text(self):
        return "".join(self.out)

    # --------------------------------------------------------- expressions
    def expr(self, d):
        r = self.rng.random()
        if d <= 0 or r < 0.45:
            return self.op(d)
        r = self.rng.random()
        if r < 0.28: return self.lam(d)
        if r < 0.55: return self.let(d)
        if r < 0.72: return self.with_(d)
        if r < 0.85: return self.if_(d)
        if r < 0.95: return self.assert_(d)
        return self.legacy(d)

    def name(self):
        if self.rng.random() < self.pglobal:
            return self.rng.choice(self.globals)
        return self.rng.choice(self.names)

    def lam(self, d):
        rng = self.rng
        nm = form = None
        l = None
        mode = rng.choice(["id", "formals", "id@", "@id"])
        fs = set()

        def formals():
            ll = self.t("{")
            ms = []
            n = rng.randrange(0, 4)
            ell = rng.random() < 0.35
            for i in range(n):
                x = rng.choice(self.names)
                if x in fs or x == nmtext:
                    continue
                fs.add(x)
                if ms:
                    self.t(",")
                p = self.t(x)
                df = None
                if rng.random() < 0.4:
                    self.t("?")
                    df = self.expr(d - 1)
                ms.append(N("Formal", p, self.end, name=x, np=p, df=df, ell=False))
            if ell:
                if ms:
                    self.t(",")
                p = self.t("...")
                ms.append(N("Formal", p, self.end, name=None, np=None, df=None, ell=True))
            elif ms and rng.random() < 0.1:
                self.t(",")
            self.t("}")
            return N("Formals", ll, self.end, m=ms)
        nmtext = None
        if mode == "id":
            nmtext = self.rng.choice(self.names)
            l = self.t(nmtext); nm = (nmtext, l)
        elif mode == "formals":
            form = formals(); l = form["l"]
        elif mode == "id@":
            nmtext = rng.choice(self.names)
            l = self.t(nmtext); nm = (nmtext, l)
            self.t("@")
            form = formals()
        else:
            nmtext = rng.choice(self.names)
            form = formals(); l = form["l"]
            self.t("@")
            p = self.t(nmtext); nm = (nmtext, p)
        self.t(":")
        self.noglue = True
        body = self.expr(d - 1)
        return N("ExprLambda", l, self.end, name=nm, formals=form, body=body)

    def let(self, d):
        l = self.t("let")
        b = self.binds(d, let=True)
        self.t("in")
        e = self.expr(d - 1)
        return N("ExprLet", l, self.end, b=b, e=e)

    def legacy(self, d):
        l = self.t("let")
        self.t("{")
        b = self.binds(d - 1, names=["a", "b", "x"], let=True)
        p = self.t("body")
        an = N("AttrName", p, self.end, ak="id", v="body")
        self.t("=")
        e = self.expr(d - 1)
        self.t(";")
        b.append(N("Binding", p, self.end, path=[an], val=e))
        self.t("}")
        return N("ExprLegacyLet", l, self.end, b=b)

    def with_(self, d):
        l = self.t("with")
        w = self.expr(d - 1)
        self.t(";")
        e = self.expr(d - 1)
        return N("ExprWith", l, self.end, w=w, e=e)

    def if_(self, d):
        l = self.t("if")
        c = self.expr(d - 1)
        self.t("then")
        t = self.expr(d - 1)
        self.t("else")
        e = self.expr(d - 1)
        return N("ExprIf", l, self.end, c=c, t=t, e=e)

    def assert_(self, d):
        l = self.t("assert")
        c = self.expr(d - 1)
        self.t(";")
        e = self.expr(d - 1)
        return N("ExprAssert", l, self.end, c=c, v=e)

    def opseq(self, d, n):
        """a flat operator sequence of n operators; may be ill-formed (non-associative)"""
        rng = self.rng
        items = []

        def operand():
            while rng.random() < 0.16:
                o = rng.choice("!-")
                p = self.t(o)
                items.append(("u", o, p, self.end))
            items.append(("a", self.app(d)))
            while rng.random() < 0.08:
                self.t("?")
                path = self.attrpath(d - 1)
                items.append(("?", None, self.end, path))
        operand()
        for _ in range(n):
            o = rng.choice(BIN)[0]
            p = self.t(o)
            items.append(("b", o, p, self.end))
            self.noglue = True
            operand()
        return items

    def op(self, d):
        if d <= 0 or self.rng.random() > self.ops:
            return self.app(d)
        while True:
            st = (list(self.out), self.pos, self.prev, self.end)
            items = self.opseq(d - 1, self.rng.choice([0, 1, 1, 2, 2, 3]))
            try:
                return reduce_ops(items)
            except NonAssoc:
                self.out, self.pos, self.prev, self.end = st

    def app(self, d):
        if d <= 0 or self.rng.random() < 0.75:
            return self.select(d)
        fn = self.select(d - 1, fn=True)
        args = [self.select(d - 1) for _ in range(self.rng.choice([1, 1, 2, 3]))]
        return N("ExprCall", fn["l"], self.end, fn=fn, args=args)

    def select(self, d, fn=False):
        rng = self.rng
        if d <= 0 or rng.random() < 0.75:
            return self.simple(d, fn)
        e = self.simple(d - 1, sel=True)
        self.dot()
        path = self.attrpath(d - 1)
        df = None
        if rng.random() < 0.3:
            self.t("or")
            df = self.select(d - 1)
        return N("ExprSelect", e["l"], self.end, e=e, path=path, df=df)

    def dot(self):
        if self.rng.random() < 0.8 and self.prev[-1] not in "/":
            self.raw(".")
        else:
            self.t(".")
        self.noglue = False

    def attrpath(self, d):
        ps = [self.attrname(d, glue=self.prev == ".")]
        while self.rng.random() < 0.3:
            self.dot()
            ps.append(self.attrname(d, glue=True))
        return ps

    def attrname(self, d, glue=False, name=None, static=False):
        rng = self.rng
        if glue and rng.random() < 0.8:
            start = lambda s: (self.pos, self.raw(s))[0]
        else:
            start = self.t
        x = rng.random()
        if name is not None or static or x < 0.8 or d <= 0:
            n = name if name is not None else rng.choice(self.names + ["map", "true"])
            if (x < 0.9 and n not in KEYWORDS) if n.replace("-", "").replace("'", "").replace("_", "").isalnum() and not n[0].isdigit() and n[0] not in "-'" else False:
                p = start(n)
                return N("AttrName", p, self.end, ak="id", v=n)
            p = start('"')
            for c in n:
                self.raw({"\n": "\\n", '"': '\\"', "\\": "\\\\"}.get(c, c))
            self.raw('"')
            return N("AttrName", p, self.end, ak="str", v=[n] if n else [""])
        if x < 0.9:
            p = start('"')
            parts = self.strparts(d, True)
            self.raw('"')
            return N("AttrName", p, self.end, ak="str", v=parts)
        p = start("${")
        e = self.expr(d - 1)
        self.t("}")
        return N("AttrName", p, self.end, ak="interp", v=N("Interpolation", p, self.end, e=e))

    def binds(self, d, names=None, let=False):
        rng = self.rng
        pool = list(names or self.names + ["q r", "if", "1a"])
        rng.shuffle(pool)
        out = []
        merged = {}
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            if not pool:
                break
            x = rng.random()
            if x < 0.2:
                l = self.t("inherit")
                frm = None
                if rng.random() < 0.5:
                    self.t("(")
                    frm = self.expr(d - 1)
                    self.t(")")
                ns = []
                for _ in range(rng.choice([1, 1, 2, 3])):
                    if pool:
                        ns.append(self.attrname(0, name=pool.pop()))
                self.t(";")
                out.append(N("Inherit", l, self.end, names=ns, frm=frm))
                continue
            if x < 0.3 and d > 0 and not let:
                a = self.attrname(d)
                if a["ak"] == "id" or (a["ak"] == "str" and all(isinstance(p, str) for p in a["v"])):
                    nm = a["v"] if a["ak"] == "id" else "".join(a["v"])
                    if nm not in pool:
                        # already used (or unknown): make it a path of its own by dropping it again
                        self.unput(a)
                        continue
                    pool.remove(nm)
                path = [a]
            elif self.merge and merged and rng.random() < 0.5:
                nm = rng.choice(sorted(merged))
                path = [self.attrname(0, name=nm)]
                self.dot()
                sub = "m%d" % merged[nm]
                merged[nm] += 1
                path.append(self.attrname(0, glue=True, name=sub))
                l = path[0]["l"]
                self.t("=")
                e = self.expr(d - 1)
                self.t(";")
                out.append(N("Binding", l, self.end, path=path, val=e))
                continue
            else:
                nm = pool.pop()
                path = [self.attrname(0, name=nm)]
                if self.merge and rng.random() < 0.3:
                    self.dot()
                    path.append(self.attrname(0, glue=True, name="m0"))
                    merged[nm] = 1
            if len(path) == 1:
                while rng.random() < 0.15:
                    self.dot()
                    path.append(self.attrname(d, glue=True))
            l = path[0]["l"]
            self.t("=")
            e = self.expr(d - 1)
            self.t(";")
            out.append(N("Binding", l, self.end, path=path, val=e))
        return out

    def unput(self, a):
        keep, n = [], 0
        s = "".join(self.out)[:a["l"]]
        self.out = [s]
        self.pos = len(s)
        st = s.rstrip()
        self.prev = st[-1:] or None
        self.end = len(st)

    def simple(self, d, fn=False, sel=False):
        rng = self.rng
        x = rng.random()
        if d <= 0:
            x *= 0.62
        if x < 0.36 or (fn and x < 0.62):
            n = self.name()
            p = self.t(n)
            return N("ExprVar", p, self.end, name=n)
        if not fn:
            if x < 0.44:
                if sel: return self.paren(d)
                n = rng.choice([0, 1, 7, 42, 1234567890, 2**31, 2**32 - 1, 2**53 + 1, 2**63 - 1, 2**63 - 2, rng.randrange(2**63)])
                s = ("00" if rng.random() < 0.05 else "") + str(n)
                p = self.t(s)
                return N("ExprInt", p, self.end, v=n)
            if x < 0.48:
                if sel: return self.paren(d)
                s = rng.choice(["1.", "%d.%d" % (rng.randrange(1, 100), rng.randrange(1000)), "0.%d" % rng.randrange(1000), "1.7976931348623157", "3.%d" % rng.randrange(10**17), "9007199254740993.0", "16777217.0"])
                if rng.random() < 0.4:
                    s += rng.choice("eE") + rng.choice(["", "+", "-"]) + str(rng.randrange(0, 30))
                p = self.t(s)
                return N("ExprFloat", p, self.end, v=float(s).hex())
            if x < 0.56: return self.dq(d)
            if x < 0.59: return self.ind(d)
            if x < 0.605:
                if sel: return self.paren(d)
                return self.path(d)
            if x < 0.612:
                s = rng.choice(["nixpkgs", "nixpkgs/nixos", "a.b-c/d+e_f"])
                p = self.t("<" + s + ">")
                return N("ExprSPath", p, self.end, t=s)
            if x < 0.62:
                if sel: return self.paren(d)
                s = rng.choice(["http://a.b/c?d=e&f=%20", "https://x.y:80/~z", "a:b", "x+y-z.w:!*'"])
                p = self.t(s)
                self.noglue = True
                return N("ExprString", p, self.end, parts=[s])
        if x < 0.72: return self.paren(d)
        if x < 0.88: return self.attrs(d)
        return self.lst(d)

    def paren(self, d):
        p = self.t("(")
        e = self.expr(d - 1)
        self.t(")")
        return N("ExprParen", p, self.end, e=e)

    def lst(self, d):
        p = self.t("[")
        el = [self.select(d - 1) for _ in range(self.rng.choice([0, 1, 2, 3, 4]))]
        self.t("]")
        return N("ExprList", p, self.end, el=el)

    def attrs(self, d):
        rec = self.rng.random() < 0.35
        if rec:
            p = self.t("rec")
            self.t("{")
        else:
            p = self.t("{")
        b = self.binds(d)
        self.t("}")
        return N("ExprAttrs", p, self.end, rec=rec, b=b)

    def interp(self, d):
        l = self.pos
        self.raw("${")
        e = self.expr(d - 1)
        self.t("}")
        return N("Interpolation", l, self.end, e=e)

    def strparts(self, d, need_interp=False):
        rng = self.rng
        parts = []

        def add(src, val):
            self.raw(src)
            if parts and isinstance(parts[-1], str):
                parts[-1] += val
            else:
                parts.append(val)
        for _ in range(rng.choice([0, 1, 2, 3, 4])):
            x = rng.random()
            if x < 0.5:
                s = rng.choice(["hello", " ", "x\n y", "''", "'", "#", "/* */", "{", "}", "\t", "é", "%", "''\\"[:2], "http://a", "<b>", "\0", "a\0b", "\xff", "\x80\x7f"])
                add(s, s)
            elif x < 0.75:
                s, v = rng.choice([("\\n", "\n"), ("\\t", "\t"), ("\\r", "\r"), ("\\\"", '"'), ("\\\\", "\\"), ("\\$", "$"), ("\\${", "${"), ("\\a", "a"), ("\\'", "'"), ("\\\n", "\n")])
                add(s, v)
            elif x < 0.88 or d <= 0:
                s = rng.choice(["$${", "$a", "$ ", "$$ ", "$${x}", "$'"])
                add(s, s)
            else:
                parts.append(self.interp(d))
        if need_interp:
            parts.append(self.interp(d))
        return parts

    def dq(self, d):
        p = self.t('"')
        parts = self.strparts(d)
        self.raw('"')
        return N("ExprString", p, self.end, parts=parts or [""])

    def ind(self, d):
        rng = self.rng
        p = self.t("''")
        parts = []

        def add(src, val):
            self.raw(src)
            if parts and isinstance(parts[-1], str):
                parts[-1] += val
            else:
                parts.append(val)
        for _ in range(rng.choice([0, 1, 2, 3, 4])):
            x = rng.random()
            if x < 0.5:
                s = rng.choice(["hello", " ", "x\n  y", '"', "#", "/* */", "{", "}", "\\", "\\n", "it's ", "\"a\"", "\n", "\0", "a\0b", "\xff"])
                add(s, s)
            elif x < 0.75:
                s, v = rng.choice([("''$", "$"), ("'''", "''"), ("''\\n", "\n"), ("''\\t", "\t"), ("''\\r", "\r"), ("''${", "${"), ("''\\a", "a"), ("''\\\\", "\\"), ("''\\'", "'"), ("''\\$", "$")])
                add(s, v)
            elif x < 0.88 or d <= 0:
                s = rng.choice(["$${", "$a", "$ ", "$$ ", "$${x}"])
                add(s, s)
            else:
                parts.append(self.interp(d))
        # an escape such as ''$ must not run into the closing quotes
        self.raw("''")
        return N("ExprString", p, self.end, parts=parts or [""])

    def path(self, d):
        rng = self.rng
        s = rng.choice(["./a", "../b/c", "/etc/x", "a/b", "~/x", "~/a/b.nix", "./.", "a-b/c_d+e.f", "1/2"])
        p = self.t(s)
        parts = [s]
        if d > 0:
            while rng.random() < 0.3:
                parts.append(self.interp(d))
                if rng.random() < 0.5:
                    s = rng.choice(["/x", "y", ".nix", "/a/b"])
                    self.raw(s)
                    parts.append(s)
        self.noglue = True
        return N("ExprPath", p, self.end, parts=parts)


def program(rng, depth=4, **kw):
    g = Gen(rng, **kw)
    e = g.expr(depth)
    if rng.random() < 0.3:
        g.out.append(rng.choice(["\n", " ", "\n# end", " /* end */"]))
    return g.text(), e
