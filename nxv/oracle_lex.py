"""Concrete oracle for the lexer: the same specification as spec_lexer.py,
executed on bytes.  Used to replay failed obligations and as bounded check."""
import random

KEYWORDS = {"if", "then", "else", "assert", "with", "let", "in", "rec", "inherit", "or"}
OPS = ["''", "++", "+", "->", "-", "*", "//", "/", "||", "|>", "!=", "!", "<=", "<|", "<", ">=", ">", "&&", '"', "}", "...", ".",
       "@", ":", "?", ";", "==", "=", "{", "(", ")", "[", "]", ",", "${"]


def al(c): return "a" <= c <= "z" or "A" <= c <= "Z"
def dg(c): return "0" <= c <= "9" and len(c) == 1
def an(c): return al(c) or dg(c)
def inn(c, s): return c != "" and c in s
def pathc(c): return c != "" and (an(c) or c in "._-+")
def idc(c): return c != "" and (an(c) or c in "_'-")
def uris(c): return c != "" and (an(c) or c in "+-.")
def urip(c): return c != "" and (an(c) or c in "%/?:@&=+$,-_.!~*'")


class L:
    def __init__(self, s):
        self.s = s; self.n = len(s)

    def at(self, i): return self.s[i] if 0 <= i < self.n else ""
    def lit(self, i, t): return self.s.startswith(t, i) if 0 <= i <= self.n else False

    def span(self, i, p):
        while i < self.n and p(self.s[i]):
            i += 1
        return i

    def trivia(self, o):
        s, n = self.s, self.n
        while o < n:
            c = s[o]
            if c in " \t\n\r\v\f":
                o += 1
            elif self.lit(o, "/*"):
                e = s.find("*/", o + 2)
                o = n if e < 0 else e + 2
            elif c == "#":
                o += 1
                while o < n:
                    if self.lit(o, "\r\n"): o += 2; break
                    if s[o] == "\n": o += 1; break
                    o += 1
            else:
                break
        return o

    def expr(self, o):
        """(spelling-kind, end, noexp, leadzero) for the token at o (trivia skipped)"""
        at, lit = self.at, self.lit
        if o >= self.n: return "eof", o, 0, 0
        c = at(o)
        ok = lambda p: pathc(at(p)) or lit(p, "${")
        if c == "~" and at(o + 1) == "/" and ok(o + 2): return "path_fragment", o + 2, 0, 0
        p = self.span(o, pathc)
        if at(p) == "/" and ok(p + 1): return "path_fragment", p + 1, 0, 0
        u = self.span(o, uris)
        if al(c) and at(u) == ":" and urip(at(u + 1)): return "uri", self.span(u + 1, urip), 0, 0
        if dg(c):
            d = self.span(o, dg)
            if at(d) == ".":
                f = self.span(d + 1, dg)
                ne = 0
                if inn(at(f), "eE"):
                    f += 1
                    if inn(at(f), "+-"): f += 1
                    ne = 0 if dg(at(f)) else 1
                    f = self.span(f, dg)
                return "float", f, ne, int(c == "0" and at(o + 1) != ".")
            return "int", d, 0, 0
        if al(c) or c == "_":
            e = self.span(o + 1, idc)
            w = self.s[o:e]
            return ("kw_" + w if w in KEYWORDS else "id"), e, 0, 0
        if c == "<" and pathc(at(o + 1)):
            q = self.span(o + 1, pathc)
            while at(q) == "/" and pathc(at(q + 1)):
                q = self.span(q + 1, pathc)
            if at(q) == ">": return "spath", q + 1, 0, 0
        for t in OPS:
            if lit(o, t): return t, o + len(t), 0, 0
        return "unknown", o + 1, 0, 0

    def part(self, o, ind):
        s, n = self.s, self.n
        while o < n:
            if ind and self.lit(o, "''") or not ind and s[o] in '\\"': break
            if self.lit(o, "$$"): o += 2
            elif self.lit(o, "${"): break
            else: o += 1
        return o

    def string(self, o):
        if o >= self.n: return "eof", o
        if self.at(o) == '"': return '"', o + 1
        if self.at(o) == "\\": return "string_escape", min(o + 2, self.n)
        if self.lit(o, "${"): return "${", o + 2
        return "string_part", self.part(o, False)

    def ind(self, o):
        if o >= self.n: return "eof", o
        if self.lit(o, "''$") or self.lit(o, "'''"): return "string_escape", o + 3
        if self.lit(o, "''\\"): return "string_escape", min(o + 4, self.n)
        if self.lit(o, "''"): return "''", o + 2
        if self.lit(o, "${"): return "${", o + 2
        return "string_part", self.part(o, True)

    def path(self, o):
        if o >= self.n: return "path_end", o
        ps = lambda c: pathc(c) or c == "/"
        if self.lit(o, "${"): return "${", o + 2
        if self.lit(o, "~/"): return "path_fragment", self.span(o + 2, ps)
        if ps(self.at(o)): return "path_fragment", self.span(o, ps)
        return "path_end", o


def linecol(s, o):
    return s.count("\n", 0, o), o - (s.rfind("\n", 0, o) + 1)


def check(s, mode, r, off=0):
    """list of (property, message) disagreements of one lexer run"""
    bad = []
    x = L(s)
    pos = off
    ne = lz = 0
    names = r["_names"]
    for i, t in enumerate(r["toks"]):
        kind, spell, lo, ll, lc, ro, rl, rc, view, co, cl, cc = t
        start = x.trivia(pos) if mode == "e" else pos
        if mode == "e":
            k, e, a, b = x.expr(start); ne += a; lz += b
        elif mode == "s": k, e = x.string(start)
        elif mode == "i": k, e = x.ind(start)
        else: k, e = x.path(start)
        T = "P03" if mode == "e" else "P04"
        where = "%s-mode token %d at %d" % (mode, i, start)
        if lo != start: bad.append((("P01",) if mode != "e" else ("P01", "P03"), "%s: starts at %d, trivia ends at %d" % (where, lo, start)))
        if not (0 <= lo <= ro <= x.n): bad.append((("P01",), "%s: range [%d,%d) not inside the source" % (where, lo, ro)))
        elif view != s[lo:ro]: bad.append((("P01",), "%s: text is not the source slice" % where))
        if co != ro or (cl, cc) != (rl, rc): bad.append((("P01",), "%s: cursor at %d but token ends at %d" % (where, co, ro)))
        if 0 <= lo <= x.n and (ll, lc) != linecol(s, lo): bad.append((("P02",), "%s: start is line %d col %d, offset %d is %r" % (where, ll, lc, lo, linecol(s, lo))))
        if 0 <= ro <= x.n and (rl, rc) != linecol(s, ro): bad.append((("P02",), "%s: end is line %d col %d, offset %d is %r" % (where, rl, rc, ro, linecol(s, ro))))
        nm = names.get(kind, "?%d" % kind)
        if nm != k: bad.append(((T,), "%s: kind %s, expected %s" % (where, nm, k)))
        if ro != e: bad.append(((T,), "%s: ends at %d, expected %d" % (where, ro, e)))
        if nm not in ("eof", "path_end") and ro <= lo: bad.append((("P01",), "%s: empty token %s" % (where, nm)))
        if bad: return bad
        pos = ro
    last = names.get(r["toks"][-1][0]) if r["toks"] else None
    if mode != "p" and last == "eof" and pos != x.n: bad.append((("P01",), "end of file reported at %d of %d" % (pos, x.n)))
    if mode == "e":
        k = [d["k"] for d in r["diags"]]
        if k.count("lex-float-no-exp") != ne: bad.append((("P03",), "%d missing-exponent diagnostics, expected %d" % (k.count("lex-float-no-exp"), ne)))
        if k.count("lex-float-leading-zero") != lz: bad.append((("P03",), "%d leading-zero diagnostics, expected %d" % (k.count("lex-float-leading-zero"), lz)))
    for d in r["diags"]:
        bad += check_diag(s, d)
    return bad


def check_cur(s, o, l, c):
    return 0 <= o <= len(s) and (l, c) == linecol(s, o)


def check_range(s, r, what):
    lo, ll, lc, ro, rl, rc = r
    bad = []
    if not (0 <= lo <= ro <= len(s)): bad.append((("P14",), "%s has range [%d,%d) outside the source of %d bytes or reversed" % (what, lo, ro, len(s))))
    elif not check_cur(s, lo, ll, lc) or not check_cur(s, ro, rl, rc): bad.append((("P02", "P14"), "%s: line/column do not match the offset" % what))
    return bad


def check_diag(s, d):
    bad = check_range(s, d["r"], "diagnostic " + d["k"])
    if d["ph"] != len(d["args"]): bad.append((("P14",), "diagnostic %s has %d arguments for %d placeholders" % (d["k"], len(d["args"]), d["ph"])))
    for n in d["notes"]:
        bad += check_range(s, n["r"], "note %s of %s" % (n["k"], d["k"]))
        if n["ph"] != n["args"]: bad.append((("P14",), "note %s has %d arguments for %d placeholders" % (n["k"], n["args"], n["ph"])))
    for f in d["fixes"]:
        es = sorted((e[0][0], e[0][3]) for e in f["e"])
        for e in f["e"]:
            bad += check_range(s, e[0], "fix edit of " + d["k"])
        for a, b in zip(es, es[1:]):
            if a[1] > b[0]: bad.append((("P14",), "edits of fix %r overlap" % f["m"]))
    return bad


FRAGS = ["a", "b1", "if", "then", "else", "let", "in", "rec", "inherit", "or", "with", "assert", "x-y", "_q'", "0", "1", "42", "007", "1.", "1.5", "0.5", "00.5", "01.", "1.e", "1.5e3", "1.5E-7", "2.e+", "3.1e-",
         "1.2.3", "'", "''", "\"", "++", "+", "->", "-", "*", "//", "/", "||", "|", "|>", "<|", "!=", "!", "<=", "<", ">=", ">", "&&", "&", "{", "}", "...", "..", ".", "@", ":", "?", ";", "==", "=", "(", ")", "[", "]", ",",
         "${", "$", "$$", "$${", "}", "\\", "\\n", "''\\n", "'''", "''$", "''\\", "''${", " ", "\n", "\t", "\r\n", "\r", "/*", "*/", "/**/", "/* x */", "/***/", "#", "# c\n", "#c\r\n", "#\r x\n", "a/b", "./a", "../x", "~/", "~/a", "~/a/b", "/", "/a", "a/", "a/b/", "/${",
         "<a>", "<a/b>", "<a/>", "<a//b>", "<a.b-c+d/e>", "<", "http://x.y", "a:b", "a:", "x:y", "a+b:c", "git+ssh://h/p?q=%20&r=$1,'!~*", "\x80", "\xff", "\xc3\xa9", "\0", "\v", "\f", "%", "^", "`", "~", "é".encode().decode("latin-1"), "abc", "a.b", "e", "E", "_", "-", "1e5", ".5", "x.5"]
ALPH = ["a", "1", "/", ".", "$", "{", "}", "'", "\"", "\\", "\n", " ", "<", ">", ":", "-", "+", "*", "#", "|", "~", "e", "0", "_", "\r", "=", "&", "!", "(", ")", "\x80"]


LEARNED = []


def gen(rng, cfg=None):
    m = rng.random()
    if m < 0.5:
        return "".join(rng.choice(FRAGS) for _ in range(rng.randint(1, 8)))
    if m < 0.6:
        return "".join(rng.choice(LEARNED or FRAGS) if rng.random() < 0.5 else rng.choice(FRAGS) for _ in range(rng.randint(1, 6)))
    if m < 0.95:
        return "".join(rng.choice(ALPH) for _ in range(rng.randint(1, 9)))
    return "".join(chr(rng.randrange(256)) for _ in range(rng.randint(1, 12)))


def exhaustive(n):
    import itertools
    for k in range(1, n + 1):
        for t in itertools.product(ALPH, repeat=k):
            yield "".join(t)
