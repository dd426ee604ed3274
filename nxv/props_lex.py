"""P01-P04: the lexer."""
import time
from . import oracle_lex as OL
from .proc import Batch, Crash
from .runner import Check, Group, Violation


def placeholders(db):
    """number of {} in every Diagnostic/Note message, from the extracted message() functions"""
    out = {}
    for cls in ("nixf::Diagnostic", "nixf::Note"):
        for f in db.byq.get(cls + "::message", []):
            if f.get("body") is None or not f["params"]:
                continue
            cur = []
            def enumval(x):
                if x.get("d") == "enum":
                    return x["v"]
                return enumval(x["e"]) if isinstance(x.get("e"), dict) else None
            def walk(x):
                if isinstance(x, list):
                    for y in x: walk(y)
                elif isinstance(x, dict):
                    if x.get("k") == "case":
                        cur.append(enumval(x["e"]))
                        walk(x.get("s"))
                    elif x.get("k") == "str":
                        for c in cur:
                            out[(cls, c)] = bytes(x["v"]).decode("latin-1").count("{}")
                        cur.clear()
                    else:
                        for kk, y in x.items():
                            if isinstance(y, (dict, list)) and kk not in ("t", "ft"):
                                walk(y)
            walk(f["body"])
    return out


class LexGroup(Group):
    name = "lexer"
    hint_cats = ["%s(" % n for n in ("digits", "pathchars", "idchars", "urischeme", "uripath", "pathsegs", "blockend", "lineend", "trivia", "spathtail", "strpart", "indpart")]
    files = ("libnixf/src/Parse/Lexer.cpp", "libnixf/src/Basic/Diagnostic.cpp", "gen/Diagnostic.cpp")

    def spec(self, db):
        from . import spec_lexer as SL
        s = SL.LexSpec()
        s.placeholders = placeholders(db)
        return s

    def contracts(self):
        from . import spec_lexer as SL
        return SL.contracts()

    def specfuns(self):
        from . import spec_lexer as SL
        return [SL.line, SL.col] + list(SL.SPANS)

    def inputs(self, m):
        from . import spec_lexer as SL
        import z3
        n = m.eval(SL.N, model_completion=True).as_long()
        n = min(n, 64)
        s = []
        for i in range(n):
            v = m.eval(SL.ch(i), model_completion=True).as_long()
            s.append(chr(v & 255))
        return ["".join(s)]


LEXFNS = ["nixf::Lexer::" + f for f in ("consume", "consumeTrivia", "consumePathStart", "consumeURI", "consumeSPath", "lex", "lexString", "lexIndString", "lexPath", "setCur")]


def kind_names(w):
    import re
    from . import spec_lexer as SL
    txt = open(w.gen + "/Tokens.h").read()
    names = re.findall(r"^\s+tok_(\w+),$", txt, re.M)
    op = {n: t for t, n in SL.OPS}
    return {i: op.get(n, n) for i, n in enumerate(names)}


class LexCheck(Check):
    level_note = ("every obligation of the lexer functions' contracts is discharged for all byte strings and all loop iterations; trusts the extractor, the VC generator, the library models and the solvers; "
                  "the sequence of calls made by the parser is covered because every lexer entry point establishes the same cursor invariant it requires")
    modes = "esip"
    bounded_desc = ("source strings built from lexical fragments, from a small alphabet of significant bytes, and from random bytes are lexed by the real lexer in every mode; "
                    "each token is compared with the executable specification (kind, start, end, text, line/column, diagnostics); a case is non-trivial when it yields a token other than end of file")

    def prepare(self, w):
        from .props_parse import source_literals
        OL.LEARNED[:] = source_literals(w)
        self.exe = w.nixfh()
        self.names = kind_names(w)

    def case(self, b, s, mode, off=0):
        try:
            r = b.call("lex%s4096:%d" % (mode, off), s)
        except Crash as c:
            return None, [Violation({"P01", "P05"} | ({"P03"} if mode == "e" else {"P04"}), "%s-mode lexing %s: %s" % (mode, c.kind, c.detail[:1500]), s, "lex" + mode)]
        r["_names"] = self.names
        bad = OL.check(s, mode, r, off)
        return r, [Violation(p, m, s, "lex" + mode) for p, m in bad]

    def bounded(self, w, rng, stop, cands):
        b = Batch(self.exe)
        try:
            seen = set()
            def one(s):
                for mode in self.modes:
                    r, vs = self.case(b, s, mode)
                    nt = r is not None and len(r["toks"]) > 1
                    yield ((mode, s) if nt else None), ({"mode": mode, "source": s, "tokens": [t[1] for t in r["toks"]]} if nt and len(s) > 3 else None), vs
            for s in cands:
                yield from one(s)
            for s in ["".join(t) for t in CORPUS]:
                yield from one(s)
            i = 0
            while time.time() < stop:
                i += 1
                yield from one(OL.gen(rng))
        finally:
            b.stop()


CORPUS = ["1.5 01.5 0.5 00.5 1.e 1.e5 1.5e 1.5E+ 1.5E-3", "a/b ./a /a ~/a ~/${x} a/${x} / // a //b", "http://a.b/c?d=e#f a:b a: :", "<nixpkgs> <a/b> <a/> <a", "/* a */ # b\n c /* x", "\"a\\\n${b}$${c}\\", "''a''\\n''$ ''' ${b} $${c} ''",
          "a||b|>c<|d||>e", "let in inherit rec if then else assert with or letx in' or-", "\n\n a\n  b\r\n c\rd", "x: y: {a?b, ...}@c: a.b or c ? d -> !e", "'''' ' ''' ''''", "a'b 'c'"]


class P01(LexCheck):
    """Lexer functions are verified against contracts over the abstract source bytes: every returned token starts where the skipped trivia ends, ends where the cursor stands, its text is the source slice, and every token but the end token is non-empty."""
    pid = "P01"
    tags = ("safety",)
    groups = [(LexGroup, LEXFNS)]


class P02(LexCheck):
    """Every lexer function preserves Line == line(Offset) and Column == col(Offset), where line and col are defined by recursion over the source bytes."""
    pid = "P02"
    groups = [(LexGroup, LEXFNS)]


class P03(LexCheck):
    """lex() is verified to return exactly the kind and end offset that the lexical grammar assigns at the first non-trivia byte."""
    pid = "P03"
    modes = "e"
    groups = [(LexGroup, ["nixf::Lexer::" + f for f in ("consume", "consumeTrivia", "consumePathStart", "consumeURI", "consumeSPath", "lex", "setCur")])]


class P04(LexCheck):
    """lexString/lexIndString/lexPath are verified to return exactly the kind and end offset of the string, indented-string and path grammars."""
    pid = "P04"
    modes = "sip"
    groups = [(LexGroup, ["nixf::Lexer::" + f for f in ("consume", "lexString", "lexIndString", "lexPath", "setCur")])]


CHECKS = [P01, P02, P03, P04]
