"""P05-P14, P23: parser, semantic actions, variable analysis, parent map."""
import random, time
from . import nixgen as G, oracle_ast as O, work as W
from .proc import Batch, Crash
from .runner import Check, Group, ModGroup, PROVED, Violation
from . import spec_tree, spec_parser, spec_ops, spec_attrs, spec_scope, spec_diag
from .props_lex import placeholders, LexGroup, LEXFNS

FRAG = ["a", "b", "x", "f", "let", "in", "rec", "inherit", "if", "then", "else", "assert", "with", "or", "{", "}", "(", ")", "[", "]", "=", ";", ":", ",", "...", "@", "?", ".", "\"", "''", "${", "$", "\\", "''$", "'''",
        "+", "-", "*", "/", "++", "//", "->", "||", "&&", "!", "==", "!=", "<", ">", "<=", ">=", "|>", "<|", "1", "0", "1.5", "01.5", "1e", "99999999999999999999", "./a", "a/b", "~/c", "<n>", "http://x", "#c\n", "/*", "*/", "\n", " ", "\t", "\r\n", "\\n", "\"a\"", "''b''", "\xc3\xa9", "\x00", "`", "true", "builtins", "body", "a/${", "{ a", "}:", "}@", "{}", "{ a, ", "a@{"]


def source_literals(w):
    """string and character literals of the parser's own sources: a dictionary for the generators"""
    import ast as A, glob, re
    out = set()
    for f in sorted(glob.glob(W.REPO + "/libnixf/src/Parse/*.[ch]*") + glob.glob(W.REPO + "/libnixf/src/Sema/*.cpp")):
        txt = re.sub(r"//[^\n]*", "", open(f, errors="replace").read())
        for m in re.findall(r'"(?:[^"\\\n]|\\.)*"|\'(?:[^\'\\\n]|\\.)\'', txt):
            try:
                v = A.literal_eval("b" + m).decode("latin-1")
            except Exception:
                continue
            if 0 < len(v) <= 8:
                out.add(v)
    return sorted(out)


def learn(w):
    known = set(FRAG)
    FRAG.extend(x for x in source_literals(w) if x not in known)


def mutate(rng, s):
    for _ in range(rng.choice([1, 1, 1, 2, 3, 6])):
        k = rng.randrange(7)
        i = rng.randrange(len(s) + 1)
        if k == 0:
            s = s[:i]
        elif k == 1:
            j = min(len(s), i + rng.choice([1, 1, 2, 5, 20]))
            s = s[:i] + s[j:]
        elif k in (2, 3):
            s = s[:i] + rng.choice(FRAG) + s[i:]
        elif k == 4:
            s = s[i:]
        elif k == 5:
            j = min(len(s), i + rng.randrange(12))
            p = rng.randrange(len(s) + 1)
            s = s[:p] + s[i:j] + s[p:]
        else:
            s = s[:i] + chr(rng.choice([0, 9, 10, 13, 32, 34, 36, 39, 47, 92, 123, 125, 127, 128, 255, rng.randrange(256)])) + s[i + 1:]
    return s


def soup(rng):
    return "".join(rng.choice(FRAG) + rng.choice(["", " ", " ", "\n"]) for _ in range(rng.choice([1, 2, 3, 5, 8, 12, 20])))


def set_soup(rng):
    """attribute sets rich in repetitions and merges"""
    g = G.Gen(rng)
    if rng.random() < 0.3:
        g.t("rec")
    P10().gen_set(g, rng.choice([1, 2, 2]))
    return g.text()


def formals_soup(rng):
    ms = [rng.choice(["a", "b", "c", "...", "a ? 1", "b ? [ ]", "", "true", "map"]) for _ in range(rng.choice([1, 2, 3, 4, 5]))]
    s = "{ " + ms[0] + "".join(rng.choice([",", ", ", " , ", ",\n", " ", "\n  , "]) + m for m in ms[1:]) + rng.choice([" }", ", }", "}"])
    a = rng.random()
    if a < 0.3: s = rng.choice("ab") + rng.choice(["@", " @ "]) + s
    elif a < 0.5: s += rng.choice(["@", " @ "]) + rng.choice("ab")
    return s + rng.choice([":", ": ", " : "]) + rng.choice(["a", "a b", "{ inherit a; }", ""])


def anything(rng):
    x = rng.random()
    if x < 0.3:
        return soup(rng)
    if x < 0.5:
        s = set_soup(rng) if x < 0.42 else formals_soup(rng)
        return s if rng.random() < 0.5 else mutate(rng, s)
    s, _ = G.program(rng, rng.choice([1, 2, 3, 4]), **({"names": ["a", "b", "x"]} if rng.random() < 0.5 else {}))
    return mutate(rng, s) if x < 0.95 else s


CORPUS = ["", " ", "# c", "{", "{ a", "{ a,", "{ a }", "{ a } @", "{ a.b", "{ a.b.", "{ a = ; }", "{ a = 1 }", "{ inherit", "{ inherit (", "{ inherit (x) }", "{ inherit ${a}; }", "{ inherit \"a\"; }", "inherit", "let", "let in", "let in 1", "let { }", "let { body = 1; ", "let { a = 1; }",
          "\"", "\"${", "\"${}\"", "''", "''${", "''''", "a.", "a.b or", "a ? ", "a or b", "a +", "+ a", "- ", "!", "(", ")", "[", "[ 1", "]", "if", "if a", "if a then", "if a then b", "if a then b else", "assert", "assert a", "assert a;", "with", "with a", "with a;", "with a; b", "with ; b",
          "x:", "x@", "x@{}", "x@{}:", "{}@x", "{}@x:", "{}@", "{}:", "{ ... }:", "{ ..., a }: a", "{ a ... }: a", "{ ... ... }: 1", "{ a, a }: a", "a@{ a }: a", "{ , }: 1", "{ a, , b }: a", "{ a ? }: a", "{ a ? 1, ... }@b: b", "rec", "rec {", "rec { a = b; b = a; }", "a/${", "a/${b", "a/${b}", "a/${b}/", "./a/${b}c", "<", "<a", "<a>", "a: b: c: d", "99999999999999999999", "1e999", "0x", "{ a = 1; a = 2; }", "{ a = {b = 1;}; a.b = 2; }", "{ a.${x}.b = 1; a.${x}.b = 2; }",
          "builtins.foo", "builtins.map", "builtins.${a}", "let inherit (builtins) map; in map", "__add", "add", "let map = 1; in map", "let true = 1; in true", "a == b == c", "{ a.b = 1; inherit a; }", "{ inherit a; a.b = 1; }", "{ or = 1; }", "a.or", "let or = 1; in or", "${a}", "{ ${a} = 1; ${a} = 2; }", "let ${a} = 1; in a"]


# appended to every corpus entry: tokens whose lexing is itself diagnosed, closers, a second construct
TAILS = [" 00.1", " = 00.1", "; 01.5e", ") 00.1", "} 00.1", " ] 00.1 1.e", " @ 00.1", " /* x", " = /*", " or = 00.1", " or 00.1", ". 00.1", " ? 00.1", "\n", "\"", " ''", "${", ":", " : 00.1", " , 00.1", " then 00.1", " in 00.1"]


class FrontCheck(Check):
    tails = False
    level = "exploration"
    technique = "bounded stand-in for contracts not yet within the verifier's reach: the real code against an executable specification on generated inputs"
    cmd = "full"
    level_note = "bounded: random generation within the stated size limits, nothing is proved by this layer"

    def prepare(self, w):
        learn(w)
        self.exe = w.nixfh()

    def call(self, b, cmd, s):
        try:
            return b.call(cmd, s), []
        except Crash as c:
            props = {"P05"}
            return None, [Violation(props, "%s while parsing and analysing: %s" % (c.kind, c.detail[:1800]), s, cmd)]

    def bounded(self, w, rng, stop, cands):
        b = Batch(self.exe)
        try:
            for s in list(cands) + CORPUS + ([c + t for c in CORPUS for t in TAILS] if self.tails else []):
                yield self.known_input(b, s)
            while time.time() < stop:
                yield self.one(b, rng)
        finally:
            b.stop()

    def known_input(self, b, s):
        return None, None, []

    def v(self, bad, s, cmd):
        return [Violation(p, m, s, cmd) for p, m in bad]


class ParserGroup(ModGroup):
    name, mod = "parser", "spec_parser"
    files = tuple("libnixf/src/Parse/%s.cpp" % f for f in ("ParseExpr", "ParseSupport", "ParseSimple", "ParseOp", "ParseAttrs", "ParseStrings", "ParseLambda")) + (
        "libnixf/src/Basic/Nodes.cpp", "libnixf/src/Basic/Diagnostic.cpp", "gen/Diagnostic.cpp", "libnixf/src/Sema/SemaActions.cpp")

    def spec(self, db):
        s = self.m().SPEC()
        s.placeholders = placeholders(db)
        return s


PARSER = (ParserGroup, spec_parser.FNS)


class OpsGroup(ParserGroup):
    name, mod, own_hints = "ops", "spec_ops", True


class AttrsGroup(ParserGroup):
    name, mod = "attrs", "spec_attrs"
    files = ("libnixf/src/Sema/SemaActions.cpp", "libnixf/src/Basic/Nodes.cpp", "libnixf/src/Basic/Diagnostic.cpp", "gen/Diagnostic.cpp")


ATTRS = (AttrsGroup, spec_attrs.FNS)


class ScopeGroup(ParserGroup):
    name, mod, budget, hints_decisive = "scope", "spec_scope", 600, True
    files = ("libnixf/src/Sema/VariableLookup.cpp", "libnixf/src/Sema/PrimOpLookup.cpp", "libnixf/src/Basic/Nodes.cpp", "libnixf/src/Basic/Diagnostic.cpp", "gen/Diagnostic.cpp")


SCOPE = (ScopeGroup, spec_scope.FNS)


class TreeGroup(ModGroup):
    name, mod = "tree", "spec_tree"
    files = ("libnixf/src/Sema/ParentMap.cpp", "libnixf/src/Sema/SemaActions.cpp", "libnixf/src/Parse/ParseOp.cpp")


TREE = (TreeGroup, spec_tree.FNS)


class DiagGroup(ModGroup):
    name, mod = "diag", "spec_diag"
    files = ("libnixf/src/Basic/Diagnostic.cpp",)


DIAG = (DiagGroup, list(spec_diag.contracts()))


# what the contracts of the analysis rest on without proof
SCOPED = ("a node is the value of at most one attribute, no attribute set contains itself and the keyword of a `with` belongs to one node (the parser makes every node once)",
          "functions that take a set's attributes by reference are verified for the attributes of an arbitrary node", "every node is first visited from its parent; runOnAST starts from a fresh analysis",
          "the table of builtins (generated when nixd is built; a stub here) has no name in common with the constants, `builtins` and __curPos, and neither table is ever written",
          "std::map, std::set, std::vector and smart pointers behave as specified; an object nobody made yet is not used by anything")
LOOKAHEAD = ("static types of pointers are right (only casts to a derived class are proved)",)
LEX = (LexGroup, LEXFNS)


class AnyInput(FrontCheck):
    """checks that hold for every byte string"""
    cmd = "ranges"

    def case(self, b, s):
        r, vs = self.call(b, self.cmd, s)
        if r is None:
            return None, None, vs
        vs += self.v(self.judge(s, r), s, self.cmd)
        return (self.key(s, r), {"source": s} if len(s) > 8 else None, vs)

    def key(self, s, r):
        return s if r["ast"] is not None or r["diags"] else None

    def one(self, b, rng):
        return self.case(b, anything(rng))

    def known_input(self, b, s):
        return self.case(b, s)


class P05(AnyInput):
    """The real parser, parent map and variable analysis, compiled with AddressSanitizer, UBSan and assertions, are run on mutated and random programs."""
    pid = "P05"
    tails = True
    groups = (LEX, PARSER, ATTRS, TREE, SCOPE, DIAG)
    level, technique, level_note = "proof", Check.technique, PROVED + ("; proved: no out-of-range access, null or dangling dereference, failed assertion, missing return or endless loop or recursion in the lexer, the parser, the semantic actions, "
        "the parent map, the variable analysis and the rendering of diagnostics; implicit destructors, memory exhaustion and the depth of the stack are bounded only")
    trusted = SCOPED + LOOKAHEAD
    tags = ("safety", "termination")
    cmd = "deep"
    bounded_desc = "well-formed random programs with 1-6 mutations (truncation, deletion, insertion, transposition, byte replacement) and token soups, parsed and analysed by the real code under ASan/UBSan with assertions, repeated for every point at which the diagnostics vector can be reallocated; non-trivial when a tree or a diagnostic results"

    def judge(self, s, r):
        return []


class P06(AnyInput):
    """Nesting, order and containment of all node ranges are decided on the real tree; on well-formed programs each node's range is compared with the text of the construct it stands for."""
    pid = "P06"
    tails = True
    groups = (PARSER, ATTRS)
    level, technique, level_note = "proof", Check.technique, PROVED + ("; proved: every node lies in the source and in its parent, and siblings are in order without overlapping, for every input; "
        "that each node of a well-formed program spans exactly its construct is bounded")
    bounded_desc = "random, mutated and well-formed programs; every node reachable through children() is checked for a range inside the source and inside its parent, ordered siblings for order; on well-formed programs every node's range is compared with the extent the generator recorded"

    def judge(self, s, r):
        return O.check_ranges(s, r["ast"], O.line_index(s)) if r["ast"] is not None else []

    def one(self, b, rng):
        if rng.random() < 0.4:
            s, e = G.program(rng, rng.choice([1, 2, 3, 4]))
            r, vs = self.call(b, "parse", s)
            if r is None:
                return None, None, vs
            d = O.diff(e, O.norm(r["ast"]))
            if d and d[0]:
                vs.append(Violation({"P06"}, d[1], s, "parse"))
            return s, None, vs
        return self.case(b, anything(rng))


class P14(AnyInput):
    """Every diagnostic, note and fix produced for random and mutated programs is checked for argument count, rendering, ranges and non-overlapping edits."""
    pid = "P14"
    tails = True
    groups = (PARSER, ATTRS, SCOPE, DIAG)
    level, technique, level_note = "proof", Check.technique, PROVED + ("; proved: every diagnostic and note reported has as many arguments as its message has placeholders, its rendering is the message with the arguments filled in, "
        "and every range of a diagnostic, note or edit is a range of the source; that the edits of one fix do not overlap is bounded")
    trusted = SCOPED
    cmd = "full"
    bounded_desc = "random, mutated and well-formed programs; non-trivial when at least one diagnostic is reported"

    def key(self, s, r):
        return s if r["diags"] else None

    def judge(self, s, r):
        return O.check_diags(s, r["diags"], O.line_index(s))


class P07(FrontCheck):
    """Operator chains parsed by the real parser are compared with a shift-reduce parser driven by the precedence declarations of the Nix grammar."""
    pid = "P07"
    groups = ((OpsGroup, spec_ops.FNS),)
    level, technique, level_note = "proof", Check.technique, PROVED + ("; proved: every conflict between neighbouring operators of every tree built without a missing operand is resolved as Nix's precedence declarations say, "
        "and repeated non-associative levels are reported exactly where they occur; the contracts of the callees are discharged by P05; the grouping of pipe operators among themselves is excluded")
    bounded_desc = "flat chains of 1 to 7 binary operators with prefix ! and -, and `?` with attribute paths, over arbitrary operands; the tree is compared with a yacc-style shift-reduce reference using Nix's %left/%right/%nonassoc table; chains of non-associative operators must be diagnosed, all others must not"

    def one(self, b, rng):
        g = G.Gen(rng, ops=0.2)
        items = g.opseq(rng.choice([0, 0, 1, 2]), rng.choice([1, 2, 2, 3, 3, 4, 5, 7]))
        s = g.text()
        return self.judge(b, s, items)

    def judge(self, b, s, items):
        r, vs = self.call(b, "parse", s)
        if r is None:
            return None, None, vs
        na = [d for d in r["diags"] if d["k"] == "parse-operator-noassoc"]
        errs = [d for d in r["diags"] if d["sev"] <= 1 and d["k"] != "parse-operator-noassoc"]
        shown = " ".join(i[1] if i[0] in "bu" else "?" if i[0] == "?" else "_" for i in items)
        try:
            e = G.reduce_ops(items)
        except G.NonAssoc as n:
            if n.args[0] not in [d["r"][0] for d in na]:
                vs.append(Violation({"P07"}, "the chain %s repeats a non-associative operator at %d and is not diagnosed there" % (shown, n.args[0]), s, "parse"))
            return s, None, vs
        if na or errs:
            vs.append(Violation({"P07"}, "the chain %s is well formed, but diagnosed: %s" % (shown, [(d["k"], d["r"][0]) for d in na + errs]), s, "parse"))
        d = O.diff(e, O.norm(r["ast"]))
        if d and not d[0]:
            vs.append(Violation({"P07"}, "the chain %s: %s" % (shown, d[1]), s, "parse"))
        return s, {"chain": shown, "source": s}, vs

    def known_input(self, b, s):
        return None, None, []


class P08(FrontCheck):
    """Literals lexed and decoded by the real parser are compared with the values of the Nix language."""
    pid = "P08"
    bounded_desc = "integer, float, string, indented-string (single line), path, search-path and URI literals, with values at and around the representable limits, in expression and attribute position"

    def one(self, b, rng):
        g = G.Gen(rng)
        x = rng.random()
        big = False
        if x < 0.35:
            n = rng.choice([0, 1, 2**63 - 1, 2**63, 2**63 + 1, 2**64 - 1, 2**64, 2**64 + 1, 10**19, 10**18, 10**40, rng.randrange(2**63), rng.randrange(2**63, 2**66), rng.randrange(2**33), rng.randrange(10**rng.randrange(1, 25)), 2**rng.randrange(0, 70) + rng.randrange(-2, 3)])
            n = abs(n)
            s = "0" * rng.choice([0, 0, 0, 1, 30]) + str(n)
            if n >= 2**63:
                big = True
                e = G.N("ExprInt", 0, len(s), v=0)
            else:
                e = G.N("ExprInt", 0, len(s), v=n)
        elif x < 0.55:
            digits = lambda a, b: "".join(rng.choice("0123456789") for _ in range(rng.randrange(a, b)))
            s = rng.choice(["0", str(rng.randrange(1, 10)) + digits(0, rng.choice([2, 20, 40]))]) + "." + digits(0, rng.choice([3, 20, 40]))
            if s == "0.":
                s = "0.0"
            if rng.random() < 0.6:
                s += rng.choice("eE") + rng.choice(["", "+", "-"]) + str(rng.choice([0, 1, 5, 20, 300, 307, 308, 309, 310, 320, 323, 324, 330, rng.randrange(400)]))
            try:
                v = float(s)
            except OverflowError:
                v = float("inf")
            e = G.N("ExprFloat", 0, len(s), v=v.hex())
        else:
            k = rng.randrange(6)
            if k <= 1: e = g.dq(1)
            elif k <= 3: e = g.ind(1)
            elif k == 4: e = g.path(1)
            else:
                while True:
                    e = g.simple(0)
                    if e["k"] in ("ExprSPath", "ExprString", "ExprPath"):
                        break
                    g = G.Gen(rng)
            s = g.text()
        r, vs = self.call(b, "parse", s)
        if r is None:
            return None, None, vs
        has = any(d["k"] == "parse-int-too-big" for d in r["diags"])
        if has != big:
            vs.append(Violation({"P08"}, "integer %s is %sdiagnosed as too big" % (s, "" if has else "not "), s, "parse"))
        if not big:
            a = O.norm(r["ast"])
            d = O.diff(e, a)
            if d and not d[0]:
                vs.append(Violation({"P08"}, d[1], s, "parse"))
        return s, {"source": s}, vs


class P09(FrontCheck):
    """Programs generated from the grammar of the Nix language together with their derivation tree are parsed by the real parser and the trees compared."""
    pid = "P09"
    bounded_desc = "well-formed programs generated from the Nix grammar with their derivation tree, with random white space and comments; a case passes when no error is reported and the parsed tree has the same constructs, children, names and order"

    def one(self, b, rng):
        s, e = G.program(rng, rng.choice([1, 2, 3, 3, 4, 5]), merge=rng.random() < 0.3)
        r, vs = self.call(b, "parse", s)
        if r is None:
            return None, None, vs
        errs = [d for d in r["diags"][:r["nparse"]] if d["sev"] <= 1]
        if errs:
            vs.append(Violation({"P09"}, "a well-formed program is rejected: %s" % [(d["k"], d.get("msg"), d["r"][0]) for d in errs[:3]], s, "parse"))
        d = O.diff(e, O.norm(r["ast"]))
        if d and not d[0]:
            vs.append(Violation({"P09"}, d[1], s, "parse"))
        return s, {"source": s} if len(s) < 200 else None, vs


class P12(FrontCheck):
    """The analysis results on generated programs are compared with a reference resolver written from the scoping rules of the language."""
    pid = "P12"
    groups = (SCOPE,)
    level, technique, level_note = "proof", Check.technique, PROVED + ("; proved: every variable's result is that of scoping in the environment of its place, the environments have exactly the definitions of their construct, "
        "and the uses recorded on a definition are exactly the variables that resolve to it; where the solver gives up on an obligation (the evidence lists it) the bounded search decides")
    trusted = SCOPED
    tags = ()
    bounded_desc = "well-formed, duplicate-free programs over few names (so that shadowing is frequent); every variable's look-up result, definition, uses and with-scopes are compared with the reference"

    def one(self, b, rng):
        kw = {"names": ["a", "b", "x"]} if rng.random() < 0.7 else {"names": ["a", "b", "c", "f", "add", "length", "__add"]} if rng.random() < 0.3 else {}
        s, e = G.program(rng, rng.choice([2, 3, 4, 5]), merge=rng.random() < 0.4, **kw)
        r, vs = self.call(b, "full", s)
        if r is None:
            return None, None, vs
        vs += self.v(O.check_scope(e, r), s, "full")
        return s, {"source": s} if 20 < len(s) < 200 else None, vs


class P13(P12):
    """Undefined-variable and liveness diagnostics on generated programs are compared with a reference written from the scoping rules."""
    pid = "P13"
    bounded_desc = "well-formed, duplicate-free programs over few names; the exact multiset of undefined-variable, prefix, unused-definition, extra-with and extra-rec diagnostics is compared with the reference"


class P23(FrontCheck):
    """Parent map, upward walks and descend() of the real code are compared with the tree obtained from children(), and children() with what the accessors give."""
    pid = "P23"
    level, technique, level_note = "proof", Check.technique, PROVED
    groups = ((TreeGroup, spec_tree.FNS),)
    tags = ("safety", "termination")
    trusted = ("no node is held by two others and none is below itself (the parser makes every node once); the keyword `let`, which a let and its attribute set share, has no children",
               "std::map, std::vector and boost::container::small_vector behave as specified", "nodes are as their constructors leave them (an attribute name has the part its kind says)",
               "the dots, commas and the operator of `?` are punctuation, not children")
    bounded_desc = "random, mutated and well-formed programs; the recorded parent of every node is compared with the node that lists it as a child; for random ranges the node found is checked to contain the range with no child containing it"

    def one(self, b, rng):
        return self.case(b, anything(rng), rng)

    def known_input(self, b, s):
        return self.case(b, s, random.Random(1))

    def case(self, b, s, rng):
        starts = [0] + [i + 1 for i, c in enumerate(s) if c == "\n"]
        lc = O.line_index(s)
        qs = []
        for _ in range(12):
            p, q = sorted((rng.randrange(len(s) + 2), rng.randrange(len(s) + 2)))
            if rng.random() < 0.4: q = p
            elif rng.random() < 0.5: q = min(len(s), p + rng.randrange(4))
            a, c = lc(min(p, len(s))), lc(min(q, len(s)))
            if rng.random() < 0.1: c = (c[0], c[1] + 3)
            if rng.random() < 0.1: c = (c[0] + 1, 0)
            qs.append((*a, *c))
        cmd = "full:" + "".join("%d,%d,%d,%d;" % q for q in qs)
        r, vs = self.call(b, cmd, s)
        if r is None or r["ast"] is None:
            return None, None, vs
        bad = []
        nodes = {n[0]: n for n in r["nodes"]}
        root = r["nodes"][0][0]
        exp = {root: {root}}
        for n in r["nodes"]:
            for c in n[6:]:
                exp.setdefault(c, set()).add(n[0])
        for i, n in nodes.items():
            at = starts[n[1]] + n[2] if n[1] < len(starts) else 0
            # the keyword `let` is shared by a let and the attribute set it desugars to
            if len(exp[i]) > 1 and not (len(exp[i]) == 2 and s.startswith("let", at) and len(n) == 6):
                bad.append("the node at %d:%d is the child of %d nodes" % (n[1], n[2], len(exp[i])))
            if n[5] not in exp[i]:
                bad.append("the parent recorded for the node at %d:%d is node %d, the tree says %s" % (n[1], n[2], n[5], exp[i]))
        # what the nodes hold (by their accessors) is what children() lists
        def held(v, p):
            if isinstance(v, list):
                for x in v:
                    held(x, p)
            elif isinstance(v, dict):
                i = v.get("id", -1)
                if i >= 0 and p is not None and i not in nodes[p][6:]:
                    if not any(i in nodes[c][6:] for c in nodes[p][6:] if v["k"] == "Interpolation" and c in nodes):
                        bad.append("the %s at %d:%d is held by a node that does not list it as a child" % (v["k"], v["r"][1], v["r"][2]))
                if i >= 0 and i not in nodes:
                    return
                for k, x in v.items():
                    if k not in ("sa", "comma"):
                        held(x, i if i >= 0 else p)

        held(r["ast"], None)
        has = lambda n, q: (n[1], n[2]) <= (q[0], q[1]) and (q[2], q[3]) <= (n[3], n[4])
        kinds = dict(r["kinds"])
        for i, isroot, ux, *to in r["walks"]:
            if len(exp.get(i, ())) != 1:
                continue
            if bool(isroot) != (i == root):
                bad.append("node %d (the root is %d) is taken for the root: %s" % (i, root, bool(isroot)))
            for got, want in zip([ux] + to, (lambda k: k.startswith("Expr"), "ExprAttrs".__eq__, "Binding".__eq__, "ExprLambda".__eq__)):
                x = i
                while not want(kinds[x]) and x != root:
                    x = nodes[x][5]
                if not want(kinds[x]):
                    x = -1
                if x != got:
                    bad.append("looking upwards from node %d (%s) finds %d, the nearest one is %d" % (i, kinds[i], got, x))
        for q, got in zip(qs, r["descend"]):
            if got == -1:
                if has(nodes[root], q):
                    bad.append("no node found for the range %s that the root contains" % (q,))
                continue
            if got not in nodes or not has(nodes[got], q):
                bad.append("the node found for %s does not contain it" % (q,))
            elif any(has(nodes[c], q) for c in nodes[got][6:]):
                bad.append("the node found for %s is not the smallest, one of its children contains the range" % (q,))
        vs += [Violation({"P23"}, m, s, cmd) for m in bad]
        return s, {"source": s, "ranges": qs[:3]} if 10 < len(s) < 120 else None, vs


# ------------------------------------------------------------- attribute sets
class RefSet:
    """Reference attribute set: name -> [kind, key range, value]; value is a RefSet or an extent"""
    def __init__(self, rec):
        self.rec = rec; self.static = {}; self.dynamic = []


class P10(FrontCheck):
    """The semantic attribute sets of the real code are compared with a reference for Nix's attribute-set merging, on generated sets rich in nested paths, repetitions and inherits."""
    pid = "P10"
    groups = (ATTRS,)
    level, technique, level_note = "proof", Check.technique, PROVED + ("; proved: what each binding and inherit adds, merges or reports, for every set; the walk along a path is proved step by step; "
        "assumed: a node is the value of at most one attribute (the two sets merged are distinct)")
    bounded_desc = "attribute sets over three names with nested paths, nested sets, rec sets, inherits, string and dynamic names and repetitions; the static map, dynamic list and inherit marks are compared with the reference merge, and the duplicate reports with the repetitions it finds"

    def gen_set(self, g, d, rec=False):
        rng = g.rng
        binds = []
        l0 = g.pos
        g.t("{")
        for _ in range(rng.choice([0, 1, 2, 2, 3, 4])):
            if rng.random() < 0.15:
                l = g.t("inherit")
                frm = rng.random() < 0.5
                if frm:
                    g.t("("); g.t("e"); g.t(")")
                names = [g.attrname(0, name=rng.choice("abc")) for _ in range(rng.choice([1, 1, 2]))]
                g.t(";")
                binds.append(("inherit", frm, names))
                continue
            path = []
            for i in range(rng.choice([1, 1, 1, 2, 2, 3])):
                if i: g.dot()
                path.append(self.nm(g, rng))
            g.t("=")
            val = self.gen_val(g, d)
            g.t(";")
            binds.append(("bind", path, val))
        g.t("}")
        return binds

    def nm(self, g, rng):
        if rng.random() < 0.88:
            return g.attrname(0, name=rng.choice("abc"), glue=g.prev == ".")
        g.noglue = False
        if rng.random() < 0.5:
            p = g.t('"'); g.raw("q"); g.raw("${"); g.t("e"); g.t("}"); g.raw('"')
            return G.N("AttrName", p, g.end, ak="interp", v=None)
        p = g.t("${"); g.t("e"); g.t("}")
        return G.N("AttrName", p, g.end, ak="interp", v=None)

    def gen_val(self, g, d):
        rng = g.rng
        if d > 0 and rng.random() < 0.5:
            rec = rng.random() < 0.25
            g.sep("{")
            l = g.pos
            if rec:
                g.raw("rec")
                rr = (l, g.end)
            b = self.gen_set(g, d - 1) if rec else self.gen_set0(g, d - 1)
            return ("set", l, g.end, rr if rec else None, b)
        l = g.t(rng.choice(["1", "x", "[ ]", "(y)"]))
        return ("val", l, g.end)

    def gen_set0(self, g, d):
        # the separator was already written
        s = g.sep
        first = [True]
        def sep(n):
            if first[0]:
                first[0] = False
                return
            s(n)
        g.sep = sep
        try:
            return self.gen_set(g, d)
        finally:
            g.sep = s

    # reference --------------------------------------------------------------
    def lower(self, v, diags):
        rs = RefSet(v[3])
        rs.l, rs.r = v[1], v[2]
        for b in v[4]:
            if b[0] == "inherit":
                for n in b[2]:
                    k = n["v"] if n["ak"] == "id" else "".join(n["v"])
                    if k in rs.static:
                        diags.append(("sema-duplicated-attrname", k, (n["l"], n["r"]), rs.static[k][1]))
                    else:
                        rs.static[k] = ["from" if b[1] else "inherit", (n["l"], n["r"]), None]
                continue
            val = self.lower(b[2], diags) if b[2][0] == "set" else (b[2][1], b[2][2])
            cur = rs
            ok = True
            for n in b[1][:-1]:
                if n["ak"] == "interp":
                    x = RefSet(None); x.l = x.r = None
                    cur.dynamic.append([(n["l"], n["r"]), x])
                    cur = x
                    continue
                k = n["v"] if n["ak"] == "id" else "".join(n["v"])
                if k in cur.static:
                    e = cur.static[k]
                    if e[0] != "plain" or not isinstance(e[2], RefSet):
                        diags.append(("sema-duplicated-attrname", k, (n["l"], n["r"]), e[1]))
                        ok = False
                        break
                    cur = e[2]
                else:
                    x = RefSet(None); x.l = x.r = None
                    cur.static[k] = ["plain", (n["l"], n["r"]), x]
                    cur = x
            if not ok:
                continue
            n = b[1][-1]
            if n["ak"] == "interp":
                cur.dynamic.append([(n["l"], n["r"]), val])
                continue
            k = n["v"] if n["ak"] == "id" else "".join(n["v"])
            if k not in cur.static:
                cur.static[k] = ["plain", (n["l"], n["r"]), val]
                continue
            e = cur.static[k]
            if e[0] == "plain" and isinstance(e[2], RefSet) and isinstance(val, RefSet):
                x = e[2]
                if bool(x.rec) != bool(val.rec):
                    diags.append(("rec", None, None, None))
                for kk, vv in val.static.items():
                    if kk in x.static:
                        diags.append(("sema-duplicated-attrname", kk, vv[1], x.static[kk][1]))
                    else:
                        x.static[kk] = vv
                x.dynamic += val.dynamic
            else:
                diags.append(("sema-duplicated-attrname", k, (n["l"], n["r"]), e[1]))
        return rs

    KIND = {"plain": 0, "inherit": 1, "from": 2}

    def cmp(self, rs, sa, where, out):
        if bool(rs.rec) != sa["rec"]:
            out.append("%s: is%s recursive" % (where, "" if sa["rec"] else " not"))
        got = {a["n"]: a for a in sa["static"]}
        if len(got) != len(sa["static"]):
            out.append("%s: a name occurs twice" % where)
        if set(got) != set(rs.static):
            out.append("%s: names %s, expected %s" % (where, sorted(got), sorted(rs.static)))
            return
        for k, (kind, key, val) in rs.static.items():
            self.cmpattr(got[k], kind, key, val, where + "." + k, out)
        if len(sa["dynamic"]) != len(rs.dynamic):
            out.append("%s: %d dynamic attributes, expected %d" % (where, len(sa["dynamic"]), len(rs.dynamic)))
            return
        for i, (g, (key, val)) in enumerate(zip(sa["dynamic"], rs.dynamic)):
            self.cmpattr(g, "plain", key, val, "%s.<dynamic %d>" % (where, i), out)

    def cmpattr(self, g, kind, key, val, where, out):
        if g["ik"] != self.KIND[kind]:
            out.append("%s: attribute kind %d, expected %s" % (where, g["ik"], kind))
        if (g["key"][0], g["key"][3]) != key:
            out.append("%s: defined at [%d,%d), expected [%d,%d)" % (where, g["key"][0], g["key"][3], *key))
        if isinstance(val, RefSet):
            if not g["val"] or g["val"]["k"] != "ExprAttrs":
                out.append("%s: is not an attribute set" % where)
            else:
                if val.l is not None and (g["val"]["r"][0], g["val"]["r"][3]) != (val.l, val.r):
                    out.append("%s: the set at [%d,%d), expected [%d,%d)" % (where, g["val"]["r"][0], g["val"]["r"][3], val.l, val.r))
                self.cmp(val, g["val"]["sa"], where, out)
        elif val is not None:
            if not g["val"] or (g["val"]["r"][0], g["val"]["r"][3]) != val:
                out.append("%s: the value at %s, expected [%d,%d)" % (where, g["val"] and (g["val"]["r"][0], g["val"]["r"][3]), *val))
        elif not g["val"] or g["val"]["k"] != ("ExprVar" if kind == "inherit" else "ExprSelect"):
            out.append("%s: an inherited attribute without its value" % where)

    def one(self, b, rng):
        g = G.Gen(rng)
        mode = rng.random()
        if mode < 0.25:
            g.t("rec"); rr = (0, 3)
            l = 0
        else:
            l, rr = None, None
        binds = self.gen_set(g, rng.choice([1, 2, 2]))
        s = g.text()
        if l is None:
            l = s.index("{")
            # leading trivia may contain a brace in a comment; find the real start
            l = len(s) - len(s[self.skip(s):])
        diags = []
        ref = self.lower(("set", l, g.end, rr, binds), diags)
        r, vs = self.call(b, "sema", s)
        if r is None:
            return None, None, vs
        out = []
        if r["ast"]["k"] != "ExprAttrs":
            out.append("the attribute set is parsed as %s" % r["ast"]["k"])
        else:
            self.cmp(ref, r["ast"]["sa"], "set", out)
            got = sorted((d["args"][0], (d["r"][0], d["r"][3]), tuple((n["r"][0], n["r"][3]) for n in d["notes"])) for d in r["diags"] if d["k"] == "sema-duplicated-attrname")
            exp = sorted((k, rg, (pv,)) for n, k, rg, pv in diags if n != "rec")
            if got != exp:
                out.append("duplicate reports %s, expected %s" % (got, exp))
        vs += [Violation({"P10"}, m, s, "sema") for m in out]
        return (s if len(binds) > 1 else None), {"source": s} if 20 < len(s) < 160 else None, vs

    def skip(self, s):
        i = 0
        while True:
            if s[i:i + 1] == "#":
                i = s.index("\n", i)
            elif s.startswith("/*", i):
                i = s.index("*/", i) + 2
            elif s[i] in " \t\r\n":
                i += 1
            else:
                return i


class P11(FrontCheck):
    """Formals lists generated with repetitions, misplaced ellipses and missing separators are parsed by the real code and every report compared with a reference."""
    pid = "P11"
    groups = ((ParserGroup, spec_parser.SEMAFNS),)
    level, technique, level_note = "proof", Check.technique, PROVED
    bounded_desc = "lambdas whose formals repeat names, name the argument, misplace ellipses, drop or double separators; the formal diagnostics with their places and the name index are compared with the reference"

    def one(self, b, rng):
        g = G.Gen(rng)
        argpos = None
        arg = rng.choice([None, None, "a", "b", "z"])
        before = arg and rng.random() < 0.5
        if before:
            argpos = g.t(arg)
            g.t("@")
        g.t("{")
        ms = []       # (kind, name, namepos, l, r, comma)
        n = rng.choice([0, 1, 2, 2, 3, 4, 5])
        first = True
        for i in range(n):
            kind = rng.choice(["id", "id", "id", "id", "ell", "empty"]) if not first else rng.choice(["id", "id", "ell"])
            comma = False
            l = None
            # a lone comma is an empty formal only when another comma follows it
            if not first and (kind == "empty" or ms[-1][0] == "empty" or rng.random() < 0.85):
                comma = True
                l = g.t(",")
            name = pos = None
            if kind == "id":
                name = rng.choice("abcd")
                pos = g.t(name)
                if l is None: l = pos
                if rng.random() < 0.3:
                    g.t("?")
                    # a single value: what follows must not be read as its arguments
                    g.t("1")
            elif kind == "ell":
                p = g.t("...")
                if l is None: l = p
            ms.append((kind, name, pos, l, g.end, comma))
            first = False
        # a formal written without separator after a default value would be an argument only for functions; 1 takes none
        g.t("}")
        if arg and not before:
            g.t("@")
            argpos = g.t(arg)
        g.t(":")
        g.noglue = True
        g.t("x")
        s = g.text()
        r, vs = self.call(b, "parse", s)
        if r is None:
            return None, None, vs
        exp = []
        last = ms[-1] if ms else None
        first_of = {}
        for i, (kind, name, pos, l, rr, comma) in enumerate(ms):
            if i and not comma: exp.append(("sema-formal-missing-comma", l, rr))
            if i + 1 < len(ms) and kind == "ell": exp.append(("sema-formal-extra-ellipsis" if last[0] == "ell" else "sema-misplaced-ellipsis", l, rr))
            if i + 1 < len(ms) and kind == "empty": exp.append(("sema-empty-formal", l, rr))
            if kind == "id":
                if name in first_of: exp.append(("sema-dup-formal", pos, pos + len(name)))
                else: first_of[name] = l
        if arg in first_of: exp.append(("sema-dup-formal-arg", argpos, argpos + len(arg)))
        NAMES = ("sema-formal-missing-comma", "sema-formal-extra-ellipsis", "sema-misplaced-ellipsis", "sema-empty-formal", "sema-dup-formal", "sema-dup-formal-arg")
        got = sorted((d["k"], d["r"][0], d["r"][3]) for d in r["diags"] if d["k"] in NAMES)
        out = []
        if r["ast"]["k"] != "ExprLambda":
            # a form the four-token look-ahead does not read as formals
            return None, None, []
        if got != sorted(exp):
            out.append("formal reports %s, expected %s" % (got, sorted(exp)))
        f = r["ast"]["arg"]["formals"]
        d = dict(map(tuple, f["dedup"]))
        if d != first_of:
            out.append("the name index is %s, expected the first formals %s" % (d, first_of))
        other = [x["k"] for x in r["diags"] if x["k"] not in NAMES and x["sev"] <= 1]
        if other:
            out.append("unexpected reports %s" % other)
        for dg in r["diags"]:
            if dg["k"] == "sema-dup-formal":
                nm = s[dg["r"][0]:dg["r"][3]]
                if not any(s[nt["r"][0]:nt["r"][3]] == nm and nt["r"][0] < dg["r"][0] for nt in dg["notes"]):
                    out.append("the report of the repeated formal %s does not point at the first one" % nm)
        vs += [Violation({"P11"}, m, s, "parse") for m in out]
        return (s if len(ms) > 1 else None), {"source": s} if len(ms) > 2 else None, vs


CHECKS = [P05, P06, P07, P08, P09, P10, P11, P12, P13, P14, P23]
