"""P15-P22, P24, P25: the language-server side."""
import json, math, random, re, struct, time
from . import work as W
from .proc import Batch, Crash
from .runner import ModGroup, PROVED, Check, Group, Violation


def pack(*fs):
    out = b""
    for f in fs:
        if isinstance(f, int):
            f = str(f)
        if isinstance(f, str):
            f = f.encode("latin-1")
        out += b"%d:" % len(f) + f
    return out


def lat(b):
    return b.decode("latin-1")


class NixdCheck(Check):
    level = "exploration"
    technique = "bounded stand-in for contracts not yet within the verifier's reach: the real code against an executable specification on generated inputs"
    level_note = "bounded: random generation within the stated size limits, nothing is proved by this layer"
    exe_name = ""

    def from_cand(self, rng, cand):
        """cases that try a solver model (a dict of strings and numbers by name) on the real code"""
        return ()

    def prepare(self, w):
        self.exe = getattr(w, self.exe_name)()

    def corpus(self):
        """(cmd, fields, judge) triples"""
        return ()

    def gen(self, rng):
        raise NotImplementedError

    def bounded(self, w, rng, stop, cands):
        b = Batch(self.exe)
        try:
            it = iter([x for c in cands for x in self.from_cand(rng, c)] + list(self.corpus()))
            while True:
                case = next(it, None)
                if case is None:
                    if time.time() >= stop:
                        break
                    case = self.gen(rng)
                cmd, fs, judge = case
                data = pack(*fs)
                inp = "%s %r" % (cmd, fs)
                try:
                    r = b.call(cmd, data)
                except Crash as c:
                    yield data, {"case": inp[:300]}, [Violation({self.pid}, "%s: %s" % (c.kind, c.detail[:1800]), inp[:4000], cmd)]
                    continue
                e = judge(r)
                yield data, {"case": inp[:300]}, [Violation({self.pid}, e, inp[:4000], cmd)] if e else []
        finally:
            b.stop()


# ---------------------------------------------------------------------- text
CHARS = ["a", "b", " ", "x", "\n", "\n", "\r\n", "\r", "\t", "\u00e9", "\u07ff", "\u0800", "\u20ac", "\uffff", "\ud7ff", "\U0001f600", "\U00010000", "\U0010ffff", "\x00", "'"]


def utext(rng, n=None):
    n = rng.choice([0, 1, 2, 3, 5, 8, 13, 30]) if n is None else n
    return "".join(rng.choice(CHARS) for _ in range(n))


def u16(s):
    return len(s.encode("utf-16-le", "surrogatepass")) // 2


def rawtext(rng):
    """bytes that need not be UTF-8"""
    out = b""
    for _ in range(rng.choice([0, 1, 2, 4, 8, 16])):
        out += rng.choice([b"a", b"\n", "\u00e9".encode(), "\U0001f600".encode(), bytes([rng.randrange(128, 256)]), b"\xf0\x9f", b"\xe2\x82", b"\xc3", b"\xf8", b"\xff", b"\x80", b"\r\n"])
    return out


def positions(t):
    """text (str) -> {byte offset: (line, utf16 column)}"""
    out, off, line, col = {}, 0, 0, 0
    for c in t:
        out[off] = (line, col)
        off += len(c.encode("utf-8"))
        if c == "\n":
            line, col = line + 1, 0
        else:
            col += u16(c)
    out[off] = (line, col)
    return out


def at(t, line, ch, strict):
    """the byte offset of a position, or None for an error; a set when more than one answer is allowed"""
    if line < 0 or ch < 0:
        return None
    ls = t.split("\n")
    if line >= len(ls):
        return None
    base = sum(len(l.encode()) + 1 for l in ls[:line])
    col = off = 0
    for c in ls[line]:
        if col == ch:
            return base + off
        n = u16(c)
        if col + n > ch:      # inside a surrogate pair
            return None if strict else {base + off, base + off + len(c.encode())}
        col += n
        off += len(c.encode())
    if col == ch:
        return base + off
    return None if strict else base + off


def agree(got, want):
    if want is None:
        return got == -1
    return got in want if isinstance(want, set) else got == want


def model_dict(m, limit=48):
    """a solver model -> {name: int or bytes} for the arguments of the function under proof"""
    import z3
    arrs, out = {}, {}
    for d in m.decls():
        if d.arity() != 0:
            continue
        nm = d.name().rsplit("!", 1)[0]
        s = d.range()
        if s == z3.IntSort() or s == z3.BoolSort():
            v = m.eval(d(), model_completion=True)
            if z3.is_int_value(v):
                out.setdefault(nm, v.as_long())
            elif z3.is_true(v) or z3.is_false(v):
                out.setdefault(nm, z3.is_true(v))
        elif s == z3.ArraySort(z3.IntSort(), z3.IntSort()):
            arrs[nm] = d()
    for nm, a in arrs.items():
        n = out.get(nm + ".len")
        if n is None:
            continue
        o = out.get(nm + ".off", 0)
        out[nm] = bytes(m.eval(a[o + i], model_completion=True).as_long() & 255 for i in range(min(n, limit)))
    return out


class NixdGroup(ModGroup):
    def inputs(self, m): return [model_dict(m)]


class TextGroup(NixdGroup):
    name, mod = "text", "spec_text"
    files = ("nixd/lspserver/src/SourceCode.cpp",)


TEXTFNS = ["lspserver::" + f for f in ("lspLength", "measureUnits", "positionToOffset", "offsetToPosition")]


class P15(NixdCheck):
    """Every offset on a character boundary of a generated text is converted to a position and back, generated
    positions (also negative, past the line, past the text, inside a surrogate pair) are converted to offsets, against a
    decoder of UTF-8/UTF-16 written in Python; texts that are not UTF-8 are only required not to crash or leave the text."""
    pid = "P15"
    exe_name = "nixdtext"
    level, technique, level_note = "proof", Check.technique, PROVED
    groups = ((TextGroup, TEXTFNS),)
    trusted = ("texts are shorter than 2^31 bytes",)
    tags = ("safety",)

    def from_cand(self, rng, c):
        for k in ("Code", "U8", "Line"):
            if isinstance(c.get(k), bytes):
                yield self.raw(c[k])
                try:
                    t = c[k].decode()
                except UnicodeDecodeError:
                    t = lat(c[k])
                yield self.o2p(t)
                ls = t.split("\n")
                yield self.p2o(t, [(l, x) for l in range(-1, len(ls) + 2) for x in list(range(-1, u16(ls[l]) + 3 if 0 <= l < len(ls) else 3))])
    bounded_desc = "texts of up to 60 characters over one- to four-byte characters, CR, LF, NUL; all offsets; positions in [-2, lines+2] x [-2, width+3] and extreme integers"

    def corpus(self):
        for t in ["", "\n", "a", "a\n", "\u00e9\n\U0001f600x", "\U0001f600", "a\r\nb", "\n\n\n", "x" * 300 + "\n" + "\U0001f600" * 50]:
            yield self.o2p(t)
            ls = t.split("\n")
            yield self.p2o(t, [(l, c) for l in range(-1, len(ls) + 2) for c in list(range(-1, u16(ls[l]) + 3 if 0 <= l < len(ls) else 3))])
        yield self.p2o("a\nb", [(2 ** 31 - 1, 0), (-2 ** 31, 0), (0, 2 ** 31 - 1), (0, -2 ** 31), (1, 2 ** 31 - 1), (0, 2 ** 32), (0, 2 ** 32 + 1), (0, 2 ** 32 - 1), (1, 2 ** 31), (2 ** 32, 0), (2 ** 32 + 1, 0), (0, -2 ** 32), (-2 ** 32, 0), (0, 2 ** 62)])
        for r in [b"\xf0", b"\xf0\x9f", b"a\xe2\x82", b"\xff\xfe", b"\x80\x80", b"\xc3\n\xc3", b"\xf0\n\x9f"]:
            yield self.raw(r)

    def o2p(self, t):
        b = t.encode()
        def judge(r):
            ps = positions(t)
            for o, want in ps.items():
                l, c, back = r["p"][o]
                if (l, c) != want:
                    return "offset %d is converted to %r, not %r" % (o, (l, c), want)
                if back != o:
                    return "offset %d converts to %r and back to %d" % (o, (l, c), back)
            if tuple(r["p"][len(b) + 1][:2]) != ps[len(b)]:
                return "an offset past the end is not clamped to the end"
            if r["len"] != u16(t):
                return "lspLength is %d, not %d" % (r["len"], u16(t))
        return "o2p", [b], judge

    def p2o(self, t, ps):
        def judge(r):
            for (l, c), (a, d, s) in zip(ps, r["p"]):
                for name, got, strict in (("lenient", a, False), ("default", d, False), ("strict", s, True)):
                    want = at(t, l, c, strict)
                    if not agree(got, want):
                        return "position (%d, %d) is converted to %r (%s), not %r" % (l, c, got, name, want)
        return "p2o", [t.encode()] + [x for p in ps for x in p], judge

    def raw(self, b):
        def judge(r):
            for o in range(len(b) + 1):
                l, c, back = r["p"][o]
                if l != b[:o].count(b"\n"):
                    return "offset %d is on line %d, not %d" % (o, l, b[:o].count(b"\n"))
                if back > len(b):
                    return "offset %d comes back as %d, outside the text" % (o, back)
        return "o2p", [b], judge

    def gen(self, rng):
        x = rng.random()
        if x < 0.15:
            return self.raw(rawtext(rng))
        t = utext(rng)
        if x < 0.5:
            return self.o2p(t)
        ls = t.split("\n")
        ps = []
        for _ in range(12):
            l = rng.randrange(-2, len(ls) + 3)
            w = u16(ls[l]) if 0 <= l < len(ls) else 3
            ps.append((l, rng.choice([rng.randrange(-2, w + 4), w, w + 1, 0])))
        return self.p2o(t, ps)


class P16(NixdCheck):
    """Sequences of content changes are applied by the real code and by a splice in Python; positions are valid, past the
    line, past the text, reversed, inside surrogate pairs, with right and wrong lengths.  A final new line is inferred
    (as documented in the code) when an edit addresses the line after an unterminated last line.  A rejected change must
    leave the text as it was."""
    pid = "P16"
    exe_name = "nixdtext"
    level, technique, level_note = "proof", Check.technique, PROVED
    groups = ((TextGroup, TEXTFNS + ["lspserver::applyChange"]),)
    trusted = ("texts are shorter than 2^31 bytes",)
    tags = ("safety",)
    bounded_desc = "texts of up to 60 characters, up to 4 changes in sequence"

    @staticmethod
    def apply(t, ch):
        """-> (new text, error)"""
        kind, sl, sc, el, ec, ln, new = ch
        if kind == "full":
            return new, False
        old = t
        idx = []
        for l, c in ((sl, sc), (el, ec)):
            o = at(t, l, c, True)
            if o is None and c == 0 and l == t.count("\n") + 1 and not t.endswith("\n"):
                t += "\n"
                o = len(t.encode())
            if o is None:
                return old, True
            idx.append(o)
        b = t.encode()
        if idx[1] < idx[0]:
            return old, True
        if ln is not None and ln != u16(b[idx[0]:idx[1]].decode()):
            return old, True
        return (b[:idx[0]] + new.encode() + b[idx[1]:]).decode(), False

    def case(self, t, chs):
        def judge(r):
            s = t
            for i, (ch, x) in enumerate(zip(chs, r["r"])):
                s2, err = self.apply(s, ch)
                if x["err"] != err:
                    return "change %d %r on %r is %s" % (i, ch, s, "rejected" if x["err"] else "accepted")
                if x["t"].encode("latin-1") != s2.encode():
                    return "change %d %r on %r gives %r, not %r" % (i, ch, s, x["t"].encode("latin-1"), s2.encode())
                s = s2
        fs = [t.encode()]
        for k, a, b, c, d, ln, new in chs:
            fs += [k, a, b, c, d, "" if ln is None else ln, new.encode()]
        return "change", fs, judge

    def corpus(self):
        for t in ["", "a", "a\n", "a\nb", "\U0001f600x\n\u00e9"]:
            n = t.count("\n")
            for pos in [(0, 0, 0, 0), (n, 0, n + 1, 0), (n + 1, 0, n + 1, 0), (n + 1, 0, n + 1, 1), (n + 1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 0, 1), (0, 0, 0, 2), (0, 1, 0, 2), (-1, 0, 0, 0), (0, 0, 0, -1), (n + 2, 0, n + 2, 0), (n, 0, n, 99), (0, 0, n + 1, 1), (0, 99, n + 1, 0)]:
                for ln in (None, 0, 1, 2, 7):
                    yield self.case(t, [("range",) + pos + (ln, "N\u00e9w\n")])
        yield self.case("a", [("full", 0, 0, 0, 0, None, "z\n"), ("range", 0, 0, 0, 1, 1, ""), ("full", 0, 0, 0, 0, 5, "")])
        yield self.case("one", [("range", 1, 0, 0, 0, None, "x"), ("range", 0, 3, 0, 3, 0, "y")])

    def gen(self, rng):
        t = s = utext(rng)
        chs = []
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            if rng.random() < 0.1:
                ch = ("full", 0, 0, 0, 0, None, utext(rng))
            else:
                ps = sorted(positions(s).items())
                a, b = rng.choice(ps), rng.choice(ps)
                if a > b and rng.random() < 0.9:
                    a, b = b, a
                (sl, sc), (el, ec) = a[1], b[1]
                ln = None
                if rng.random() < 0.5:
                    ln = u16(s.encode()[a[0]:b[0]].decode()) if a <= b else rng.randrange(5)
                    if rng.random() < 0.2:
                        ln += rng.choice([-1, 1, 2])
                x = rng.random()
                if x < 0.08: el, ec = s.count("\n") + 1, 0
                elif x < 0.12: sl, sc, el, ec = s.count("\n") + 1, 0, s.count("\n") + 1, rng.choice([0, 0, 1])
                elif x < 0.2: ec += rng.choice([1, 1, 2, 50])
                elif x < 0.24: sc += rng.choice([1, -1, 50])
                elif x < 0.27: el += rng.choice([1, 2, -1, 100])
                elif x < 0.28: sl = -1
                ch = ("range", sl, sc, el, ec, ln, utext(rng, rng.choice([0, 1, 3])))
            chs.append(ch)
            s = self.apply(s, ch)[0]
        return self.case(t, chs)


# ---------------------------------------------------------------------- URIs
SAFE = re.compile(rb"[A-Za-z0-9\-_.~/:%]*\Z")


def pdecode(b):
    return re.sub(rb"%([0-9A-Fa-f]{2})", lambda m: bytes([int(m.group(1), 16)]), b)


def uparse(b):
    i = b.find(b":")
    if i < 0:
        return None
    sch = pdecode(b[:i])
    if not re.match(rb"[A-Za-z][A-Za-z0-9+.\-]*\Z", sch):
        return None
    rest, auth = b[i + 1:], b""
    if rest.startswith(b"//"):
        rest = rest[2:]
        j = rest.find(b"/")
        j = len(rest) if j < 0 else j
        auth, rest = pdecode(rest[:j]), rest[j:]
    return sch, auth, pdecode(rest)


class UriGroup(NixdGroup):
    name, mod = "uri", "spec_uri"
    files = ("nixd/lspserver/src/URI.cpp",)


URIFNS = ["lspserver::" + f for f in ("(anonymous namespace)::percentEncode", "(anonymous namespace)::percentDecode", "(anonymous namespace)::isValidScheme", "URI::toString", "URI::parse",
                                      "FileSystemScheme::getAbsolutePath", "FileSystemScheme::uriFromAbsolutePath")]


class P17(NixdCheck):
    """Components with arbitrary bytes are encoded and parsed back, absolute paths with arbitrary bytes make the trip through
    a file URI (all ways of creating one), and generated texts, with broken percent sequences and bad schemes, are parsed,
    against a Python reading of the same grammar.  Paths of the form //name, which LLVM does not
    count as absolute, are left out."""
    pid = "P17"
    exe_name = "nixdtext"
    level, technique, level_note = "proof", Check.technique, PROVED
    groups = ((UriGroup, URIFNS),)
    tags = ("safety",)
    trusted = ("the native path style is POSIX; root_name, convert_to_slash and is_separator behave as documented for it", "texts are shorter than 2^31 bytes",
               "validity of a scheme depends on its bytes only (isValidScheme is a function of the content)", "no URI scheme besides file is registered")
    bounded_desc = "components and paths of up to 40 arbitrary bytes, URI texts of up to 60 bytes"

    def from_cand(self, rng, c):
        for v in c.values():
            if isinstance(v, bytes):
                yield self.parse(v)
                yield self.parse(b"file://" + v)
                yield self.enc(b"file", b"", b"/" + v)
                p = b"/" + v
                yield self.file(b"/x" + p if re.match(rb"//[^/]*\Z", p) else p)

    def enc(self, sch, auth, body):
        def judge(r):
            s = r["s"].encode("latin-1")
            if not SAFE.match(s):
                return "the encoded text %r has a byte that is not URI-safe" % s
            if re.search(rb"%(?![0-9A-Fa-f]{2})", s):
                return "the encoded text %r has a broken escape" % s
            if "scheme" not in r:
                return "the encoded text %r is not parsed" % s
            got = tuple(r[k].encode("latin-1") for k in ("scheme", "auth", "body"))
            if got != (sch, auth, body):
                return "%r comes back as %r" % ((sch, auth, body), got)
        return "enc", [sch, auth, body], judge

    def parse(self, t):
        def judge(r):
            w = uparse(t)
            if r["ok"] != (w is not None):
                return "%r is %s" % (t, "accepted" if r["ok"] else "rejected")
            if w is None:
                return None if r["path"] is None else "%r is resolved though it is no URI" % t
            got = tuple(r[k].encode("latin-1") for k in ("scheme", "auth", "body"))
            if got != w:
                return "%r is parsed as %r, not %r" % (t, got, w)
            if w[0] == b"file" and not w[1]:
                p = r["path"]
                if not w[2].startswith(b"/"):
                    return None if p is None else "a file URI with the relative body %r is resolved" % w[2]
                if p is None or p.encode("latin-1") != w[2]:
                    return "the file URI %r names %r, not %r" % (t, p, w[2])
        return "parse", [t], judge

    def file(self, p):
        def judge(r):
            for v in ("v0", "v1", "v2"):
                s = r[v]["s"].encode("latin-1")
                if not SAFE.match(s):
                    return "the URI %r has a byte that is not URI-safe" % s
                q = r[v]["path"]
                if q is None or q.encode("latin-1") != p:
                    return "the path %r becomes %r and comes back as %r" % (p, s, q)
            if r["canon"].encode("latin-1") != p:
                return "the path %r is canonicalised to %r" % (p, r["canon"])
            if r["uri"].encode("latin-1") != r["v0"]["s"].encode("latin-1"):
                return "the document URI %r differs" % r["uri"]
        return "file", [p], judge

    def corpus(self):
        for c in range(256):
            yield self.enc(b"file", b"", b"/" + bytes([c]))
            yield self.file(b"/a" + bytes([c]) + b"b")
        for p in [b"/", b"/a", b"/a b", b"/%41", b"/%", b"/a%2", b"/c:/x", b"/c:", b"/a\\b", b"//h/s", b"//h/", b"///h", b"////h/a", b"/a//b", b"///a", b"/a/", b"/\xff\xfe", b"/\xc3\xa9", b"/a#b?c"]:
            yield self.file(p)
        for t in [b"", b":", b"a", b"file:", b"file:/a", b"file:///a", b"file://h/a", b"file://h", b"file://", b"file:a", b"1a:/x", b"%66ile:///a", b"f%:///", b"f%6:///", b"file:///%", b"file:///%4", b"file:///%41", b"file:///%4g", b"file:///%g1", b"file:///a%", b"file:///a%2", b"file:///%%41", b"file:///%c3%A9", b"a+b-c.d:/x", b"a_b:/x", b"+a:/x", b"nope:///a", b"a:b:c", b"file:////a", b"file:///c:/x"]:
            yield self.parse(t)
        for a in [b"", b"h", b"h%", b"a:b@c", b"\xff"]:
            for b in [b"/", b"/x", b"/%", b"//", b"/a?b#c"]:
                yield self.enc(b"file", a, b)
        yield self.enc(b"x", b"", b"a")
        yield self.enc(b"x", b"", b"")

    ALPH = [b"a", b"B", b"9", b"/", b"%", b"%4", b"%41", b"%zz", b":", b" ", b"?", b"#", b"\\", b".", b"..", b"~", b"+", b"\x00", b"\xff", b"\xc3\xa9", b"-", b"_", b"%2F", b"%25", b"&", b"\n"]

    def word(self, rng, n):
        return b"".join(rng.choice(self.ALPH) if rng.random() < 0.7 else bytes([rng.randrange(256)]) for _ in range(rng.randrange(n)))

    def gen(self, rng):
        x = rng.random()
        if x < 0.35:
            p = b"/" + self.word(rng, 14)
            if re.match(rb"//[^/]*\Z", p):
                p = b"/x" + p
            return self.file(p)
        if x < 0.65:
            sch = rng.choice([b"file", b"a", b"Http", b"x+y", b"z.9-"])
            body = b"/" + self.word(rng, 10)
            auth = self.word(rng, 6).replace(b"/", b"") if rng.random() < 0.5 else b""
            return self.enc(sch, auth, body)
        t = rng.choice([b"file:", b"file://", b"file:///", b"a:", b"", b"%41:", b"x", b"9:", b":"]) + self.word(rng, 10)
        return self.parse(t)


# ------------------------------------------------------------ generated Nix text
KEYWORDS = {"if", "then", "else", "assert", "with", "let", "in", "rec", "inherit", "or"}


def unescape_dq(b):
    """the inside of a double-quoted string -> its bytes, or None when it is not one piece of text"""
    out, i = bytearray(), 0
    while i < len(b):
        c = b[i:i + 1]
        if c == b'"':
            return None
        if c == b"\\":
            if i + 1 >= len(b):
                return None
            d = b[i + 1:i + 2]
            out += {b"n": b"\n", b"r": b"\r", b"t": b"\t"}.get(d, d)
            i += 2
        elif b[i:i + 2] == b"${":
            return None
        elif b[i:i + 2] == b"$$":
            out += b"$$"
            i += 2
        else:
            out += c
            i += 1
    return bytes(out)


def sbytes(rng):
    return b"".join(rng.choice([b"$", b"{", b"}", b"'", b"''", b'"', b"\\", b"\n", b"\t", b"\r", b"a", b" ", b"${", b"$$", b"n", b"t", b"\xc3\xa9", bytes([rng.randrange(256)])]) for _ in range(rng.choice([0, 1, 2, 3, 4, 6, 9])))


def merge(parts):
    out = []
    for k, s in parts:
        if k == "t":
            if s == "":
                continue
            if out and out[-1][0] == "t":
                out[-1] = ("t", out[-1][1] + s)
                continue
        out.append((k, s))
    return out


class NixTextGroup(NixdGroup):
    name, mod = "nixtext", "spec_nixtext"
    files = ("nixd/lib/Controller/CodeActions/Utils.cpp", "nixd/lib/Controller/CodeActions/RewriteString.cpp")


NIXTEXTFNS = ["nixd::isValidNixIdentifier", "nixd::escapeNixString", "nixd::quoteNixAttrKey"] + ["nixd::(anonymous namespace)::" + f for f in ("escapeForIndentedString", "isIndentedString")]


class P18(NixdCheck):
    """Arbitrary bytes are escaped and read back by a Python reading of Nix's double-quoted strings and by the real parser;
    attribute keys likewise; string literals of both forms with escapes and interpolations go through the rewrite action, are spliced
    into the source and parsed again, and must have the same text and interpolations.  (The stripping of common indentation is not applied
    by the parser and not part of this comparison.)"""
    pid = "P18"
    exe_name = "nixdact"
    level, technique, level_note = "proof", Check.technique, PROVED
    groups = ((NixTextGroup, NIXTEXTFNS),)
    tags = ("safety",)
    trusted = ("texts are shorter than 2^31 bytes", "reading a literal is specified after Nix's lexer (read_dq, read_ind); that nixf's parser reads alike is compared on inputs",
               "assembling a literal from text and interpolations (buildDoubleQuotedString, buildIndentedString) is checked on inputs only")
    bounded_desc = "strings of up to 9 pieces over quotes, dollars, braces, backslashes, white space and arbitrary bytes, up to 3 interpolations"

    def esc(self, s):
        def judge(r):
            e = r["esc"].encode("latin-1")
            if unescape_dq(e) != s:
                return "the bytes %r are escaped as %r, which reads as %r" % (s, e, unescape_dq(e))
            k = r["key"].encode("latin-1")
            t = lat(s)
            ident = bool(re.match(r"[A-Za-z_][A-Za-z0-9_'\-]*\Z", t)) and t not in KEYWORDS
            if t not in ("true", "false", "null"):
                if r["id"] != ident:
                    return "%r is %sa valid identifier" % (s, "" if r["id"] else "not ")
                if (k == s) != ident:
                    return "the key %r is written as %r" % (s, k)
            if k != s and (len(k) < 2 or k[:1] != b'"' or k[-1:] != b'"' or unescape_dq(k[1:-1]) != s):
                return "the key %r is written as %r" % (s, k)
        return "esc", [s], judge

    def read(self, s):
        """the real parser agrees with the Python reading on escaped text (checks the oracle as well)"""
        e = s.replace(b"\\", b"\\\\").replace(b'"', b'\\"').replace(b"$", b"\\$").replace(b"\r", b"\\r")
        def judge(r):
            if r["errs"] or r["parts"] is None or not r["all"] or merge(r["parts"]) != merge([("t", lat(s))]):
                return "the parser reads %r as %r" % (e, r)
        return "read", [b'"' + e + b'"'], judge

    def rewrite(self, src):
        def judge(r):
            if not r["found"] or r["errs"]:
                return None
            if src[r["range"][0]:r["range"][0] + 2] == b"''":
                pass
            if len(r["acts"]) != 1 or len(r["acts"][0]["edits"]) != 1:
                return "no rewrite is offered for %r" % src
            if "new" not in r:
                return "the edit does not apply to %r" % src
            if r["errs2"] or r["after"] is None:
                return "%r is rewritten to %r, which has syntax errors" % (src, r["new"])
            if merge(r["before"]) != merge(r["after"]):
                return "%r is rewritten to %r: %r became %r" % (src, r["new"], merge(r["before"]), merge(r["after"]))
            new = r["new"].encode("latin-1")
            if (new[r["range2"][0]:r["range2"][0] + 2] == b"''") == (src[r["range"][0]:r["range"][0] + 2] == b"''"):
                return "%r is rewritten to the same form: %r" % (src, new)
            if src[:r["range"][0]] != new[:r["range2"][0]] or src[r["range"][1]:] != new[r["range2"][1]:]:
                return "text outside the string changed: %r to %r" % (src, new)
        return "rewrite", [src], judge

    DQ = [b"a", b" ", b"\\n", b"\\t", b"\\\\", b'\\"', b"\\$", b"\\${", b"\\'", b"$", b"$$", b"'", b"''", b"'''", b"{", b"}", b"\n", b"\xc3\xa9", b"${x}", b"${x}", b"${\"q\"}", b"${''i''}", b"\\r", b"\\q"]
    IND = [b"a", b" ", b"''\\n", b"''\\t", b"''\\\\", b"\"", b"''$", b"''${", b"'''", b"''\\'", b"$", b"$$", b"{", b"}", b"\n", b"\\", b"\\n", b"\xc3\xa9", b"${x}", b"${x}", b"' ", b"${\"q\"}", b"''\\$"]

    def literal(self, rng):
        ind = rng.random() < 0.5
        body = b"".join(rng.choice(self.IND if ind else self.DQ) for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 7])))
        q = b"''" if ind else b'"'
        pre, post = rng.choice([(b"", b""), (b"( ", b" )"), (b"{ \xc3\xa9 = 1; a = "[0:2] + b"a = ", b"; }"), (b"[ ", b" 1 ]"), (b"# \xf0\x9f\x98\x80\n", b"\n")])
        return pre + q + body + q + post

    def corpus(self):
        for c in range(256):
            yield self.esc(bytes([c]))
            yield self.esc(b"a" + bytes([c]))
            yield self.read(bytes([c]))
        for s in sorted(KEYWORDS) + ["true", "false", "null", "", "a", "A", "_", "a-b", "a'b", "a.b", "-a", "9a", "a9", "'a", "a b", "lets", "iff", "Inherit", "ora"]:
            yield self.esc(s.encode())
        pieces = [b"$", b"{", b"'", b"''", b'"', b"\\", b"n", b"\n"]
        for a in pieces:
            for b in pieces:
                for c in pieces:
                    yield self.esc(a + b + c)
        for set_, q in ((self.DQ, b'"'), (self.IND, b"''")):
            for a in set_:
                yield self.rewrite(q + a + q)
                for b in set_:
                    yield self.rewrite(q + a + b + q)
        for s in ["", "true", "x y"]:
            yield self.rewrite(b'let a = "' + s.encode() + b'"; in a')

    def gen(self, rng):
        x = rng.random()
        if x < 0.3:
            return self.esc(sbytes(rng))
        if x < 0.4:
            return self.read(sbytes(rng))
        return self.rewrite(self.literal(rng))


class NixText(Exception):
    pass


def nix_eval(t):
    """value of a Nix expression made of literals, lists, sets, negation and subtraction in parentheses"""
    tok = re.compile(r"\s*(?:(?P<f>(?:(?:[1-9][0-9]*\.[0-9]*)|(?:0?\.[0-9]+))(?:[Ee][+-]?[0-9]+)?)|(?P<i>[0-9]+)|(?P<w>[A-Za-z_][A-Za-z0-9_'\-]*)|(?P<s>\"(?:[^\"\\]|\\.)*\")|(?P<p>[\[\]{}=;()\-.]))", re.S)
    toks, i = [], 0
    t = t.rstrip()
    while i < len(t):
        m = tok.match(t, i)
        if not m:
            raise NixText("no token at %r" % t[i:i + 20])
        toks.append((m.lastgroup, m.group(m.lastgroup), m.end()))
        # two literals that touch would be one token or an application
        if len(toks) > 1 and toks[-1][0] in "fiws" and toks[-2][0] in "fiws" and m.start(m.lastgroup) == toks[-2][2]:
            raise NixText("literals run together")
        i = m.end()
    pos = [0]
    def peek():
        return toks[pos[0]][:2] if pos[0] < len(toks) else (None, None)
    def take(v=None):
        k = peek()
        if k[0] is None or (v is not None and k != ("p", v)):
            raise NixText("expected %r, found %r" % (v, k))
        pos[0] += 1
        return k
    def string(s):
        v = unescape_dq(s[1:-1].encode("latin-1"))
        if v is None:
            raise NixText("interpolation in %r" % s)
        return v
    def simple():
        k, v = take()
        if k == "f": return float(v)
        if k == "i":
            if int(v) > 2 ** 63 - 1:
                raise NixText("integer %s does not fit" % v)
            return int(v)
        if k == "s": return string(v)
        if k == "w":
            if v in ("true", "false", "null"):
                return {"true": True, "false": False, "null": None}[v]
            raise NixText("identifier " + v)
        if v == "[":
            out = []
            while peek() != ("p", "]"):
                out.append(simple())
            take("]")
            return out
        if v == "{":
            out = {}
            while peek() != ("p", "}"):
                k, v = take()
                if k == "w" and v not in KEYWORDS:
                    key = v.encode("latin-1")
                elif k == "s":
                    key = string(v)
                else:
                    raise NixText("attribute name %r" % v)
                if key in out:
                    raise NixText("attribute %r twice" % key)
                take("=")
                out[key] = expr()
                take(";")
            take("}")
            return out
        if v == "(":
            e = expr()
            take(")")
            return e
        raise NixText("unexpected " + v)
    def neg():
        if peek() == ("p", "-"):
            take()
            x = neg()
            if isinstance(x, bool) or not isinstance(x, (int, float)):
                raise NixText("negated non-number")
            return -x
        return simple()
    def expr():
        x = neg()
        while peek() == ("p", "-"):
            take()
            x = x - neg()
        return x
    v = expr()
    if pos[0] != len(toks):
        raise NixText("trailing text")
    return v


def same(j, n):
    if j is None or isinstance(j, bool):
        return n is j
    if isinstance(j, (int, float)):
        if isinstance(n, bool) or not isinstance(n, (int, float)):
            return False
        if isinstance(j, int) and -2 ** 63 <= j < 2 ** 63:
            return j == n
        return float(j) == float(n)
    if isinstance(j, str):
        return n == j.encode("utf-8")
    if isinstance(j, list):
        return isinstance(n, list) and len(j) == len(n) and all(same(a, b) for a, b in zip(j, n))
    return isinstance(n, dict) and len(j) == len(n) and all(k.encode("utf-8") in n and same(v, n[k.encode("utf-8")]) for k, v in j.items())


def depth(v):
    if isinstance(v, list):
        return 1 + max([depth(x) for x in v], default=0)
    if isinstance(v, dict):
        return 1 + max([depth(x) for x in v.values()], default=0)
    return 0


def width(v):
    if isinstance(v, list):
        return max([len(v)] + [width(x) for x in v])
    if isinstance(v, dict):
        return max([len(v)] + [width(x) for x in v.values()])
    return 0


class P19(NixdCheck):
    """JSON texts of generated values are converted by the action; the produced text is read by a Python evaluator of the literal subset of
    Nix (lists take simple expressions only, integers must fit, floats follow Nix's grammar) and must give the same value.  Values up to
    depth 90 and width 9000 must be offered; deeper or wider ones may be declined.  Strings may hold any Unicode text."""
    pid = "P19"
    exe_name = "nixdact"
    bounded_desc = "values of depth up to 5 (and chains around 50..130), width up to 6 (and 9990..10010), all JSON number forms"

    def case(self, v, text=None, pre="", post=""):
        text = json.dumps(v, ensure_ascii=False) if text is None else text
        src = pre + text + post
        ps = positions(src)
        a, b = len(pre.encode()), len((pre + text).encode())
        (sl, sc), (el, ec) = ps[a], ps[b]
        def judge(r):
            if not r["acts"]:
                if isinstance(v, (list, dict)) and v and depth(v) <= 90 and width(v) <= 9000 and not self.odd(v):
                    return "no conversion is offered for %s" % text[:300]
                return None
            if len(r["acts"]) != 1 or len(r["acts"][0]["edits"]) != 1:
                return "%d actions, %r" % (len(r["acts"]), r["acts"][0]["edits"] if r["acts"] else None)
            f, rg, new = r["acts"][0]["edits"][0]
            if rg != [sl, sc, el, ec]:
                return "the edit replaces %r, not the selection" % rg
            try:
                n = nix_eval(new)
            except NixText as e:
                return "%s is converted to %r, which is not the expression of a value: %s" % (text[:300], new[:300], e)
            except RecursionError:
                return None
            if not same(v, n):
                return "%s is converted to %r, which has another value" % (text[:300], new[:300])
        return "json", [src.encode(), sl, sc, el, ec], judge

    def odd(self, v):
        """numbers that no double holds may be declined"""
        if isinstance(v, list):
            return any(map(self.odd, v))
        if isinstance(v, dict):
            return any(map(self.odd, v.values()))
        return isinstance(v, (int, float)) and (math.isinf(float(v)) if not isinstance(v, bool) else False)

    NUMS = ["0", "1", "-1", "7", "-0", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551615", "-9223372036854775809", "1.5", "-1.5", "0.1", "1.0", "1e3", "1e20", "-1e20", "1e-7", "1.5e300", "5e-324", "123456789012345678", "0.30000000000000004", "1E+2", "1e21", "100000000000000000000.5", "2.5e-5", "-0.0", "1e308", "4503599627370497.5"]
    STRS = ["", "a", "a b", "${x}", "$${", "$", "\"", "\\", "\n", "\t", "\r", "''", "\u00e9", "\U0001f600", "\\n", "let", "true", "x-y", "1a", "a.b", "\x01", "\x7f", "or", "\u2028", "{", "$$", "\\${"]

    def corpus(self):
        for s in self.NUMS:
            try:
                v = json.loads(s)
            except Exception:
                continue
            yield self.case([v], "[%s]" % s)
            yield self.case({"k": v}, '{"k": %s}' % s)
            yield self.case([[v], {"a": [v, v]}], "[[%s], {\"a\": [%s, %s]}]" % (s, s, s))
        for s in self.STRS:
            yield self.case([s]); yield self.case({s: s}); yield self.case({s: {s: [s]}})
        for v in [[None, True, False], {"a": None}, [[]], [{}], {"a": {}}, {"a": []}, [[[[]]]], {"b": 1, "a": 2, "c": 3}, [3, 1, 2]]:
            yield self.case(v)
            yield self.case(v, pre="\u00e9\n  \U0001f600 ", post=" x\n")
        for s in ["1e999", "-1e999"]:
            yield self.case([json.loads(s)], "[%s]" % s)
        for n in (50, 89, 99, 100, 101, 102, 130):
            v = 1
            for i in range(n):
                v = [v] if i % 2 else {"a": v}
            yield self.case(v)
        for n in (100, 8000, 9999, 10000, 10001, 10010):
            yield self.case([0] * n)
            yield self.case({"k%d" % i: i for i in range(n)})
            yield self.case([{"a": [0] * n}, 1])

    def value(self, rng, d):
        x = rng.random()
        if d == 0 or x < 0.4:
            return rng.choice([json.loads(rng.choice(self.NUMS)), rng.choice(self.STRS), "".join(rng.choice(self.STRS) for _ in range(3)), None, True, False,
                               rng.randrange(-2 ** 63, 2 ** 63), struct.unpack("<d", struct.pack("<Q", (rng.randrange(1, 2046) << 52) | rng.getrandbits(52) | (rng.getrandbits(1) << 63)))[0], rng.uniform(-1e6, 1e6)])
        if x < 0.7:
            return [self.value(rng, d - 1) for _ in range(rng.randrange(5))]
        return {rng.choice(self.STRS) + rng.choice(["", "", "q", rng.choice(self.STRS)]): self.value(rng, d - 1) for _ in range(rng.randrange(5))}

    def gen(self, rng):
        v = self.value(rng, rng.choice([1, 2, 3, 4]))
        if not isinstance(v, (list, dict)):
            v = [v]
        t = json.dumps(v, ensure_ascii=rng.random() < 0.5, indent=rng.choice([None, 1, 4]))
        v = json.loads(t)
        return self.case(v, t, pre=rng.choice(["", "", "# \U0001f600 ", "a\n"]), post=rng.choice(["", " ", "\nb"]))


# --------------------------------------------------------------------- drafts
def dver(s):
    m = re.match(r"[+\-]?[0-9]+\Z", s)
    return int(s) if m and -2 ** 63 <= int(s) < 2 ** 63 and not s.startswith("+") else None


def numeric_key(s):
    """the order used for versions: text, with runs of digits compared as numbers"""
    return [(1, int(x), "") if x.isdigit() else (0, 0, x) for x in re.findall(r"[0-9]+|[^0-9]", s)]


class DraftGroup(NixdGroup):
    name, mod = "draft", "spec_draft"
    files = ("nixd/lspserver/src/DraftStore.cpp",)


DRAFTFNS = ["lspserver::" + f for f in ("increment", "updateVersion", "DraftStore::addDraft", "DraftStore::getDraft", "DraftStore::removeDraft", "DraftStore::encodeVersion", "DraftStore::decodeVersion")]


class P22(NixdCheck):
    """Generated histories of adds (with and without versions), gets, removals and listings run on the real store and on a Python dictionary.
    A version assigned by the store must be greater than the previous one in the store's own order (text in which runs of digits compare as numbers)
    and, when the previous one is a non-negative number, must be a greater number.  Texts handed out earlier must not change."""
    pid = "P22"
    exe_name = "nixdtext"
    level, technique, level_note = "proof", Check.technique, PROVED
    groups = ((DraftGroup, DRAFTFNS),)
    tags = ("safety",)
    trusted = ("llvm::StringMap behaves as a finite map from texts, std::shared_ptr<std::string> keeps its text while somebody holds it",
               "the store's mutex is only taken, schedules are not part of the proof", "decimal text and value are inverse to each other (std::to_string, llvm::to_integer)",
               "texts are shorter than 2^31 bytes", "getActiveFiles and asVFS are covered by the bounded part only")
    bounded_desc = "histories of up to 25 operations over 4 files"

    def case(self, ops):
        def judge(r):
            st = {}
            vers = {}
            kept = []
            for (op, f, v, t), got in zip(ops, r["r"]):
                if op == "add":
                    g = got
                    old = vers.get(f, "")
                    if v:
                        if g != lat(v):
                            return "storing version %r of %r gave %r" % (v, f, g)
                    elif old == "":
                        if g == "":
                            return "a file stored without a version got none"
                    else:
                        if not numeric_key(g) > numeric_key(old):
                            return "the version after %r is %r" % (old, g)
                        if old.isdigit() and (not g.isdigit() or int(g) <= int(old)):
                            return "the version after %r is %r" % (old, g)
                    vers[f] = g
                    st[f] = (lat(t), g)
                elif op == "rm":
                    st.pop(f, None); vers.pop(f, None)
                elif op == "files":
                    if got != sorted(map(lat, st)):
                        return "the open files are %r, not %r" % (got, sorted(map(lat, st)))
                else:
                    w = st.get(f)
                    if (None if got is None else tuple(got)) != w:
                        return "%r has %r, not %r" % (f, got, w)
                    if w:
                        kept.append(w[0])
            if r["kept"] != kept:
                return "a text handed out earlier changed"
        return "draft", [x for o in ops for x in o], judge

    def ver(self, n, t):
        def judge(r):
            e, d = r["e"], r["d"]
            if n is None:
                return None if e == "" and d is None else "no version is encoded as %r, decoded as %r" % (e, d)
            if e != str(n) or d != str(n):
                return "version %d is encoded as %r and decoded as %r" % (n, e, d)
            w = dver(lat(t)) if re.match(rb"-?[0-9]+\Z", t) or not t else None
            if re.match(rb"-?[0-9]*\Z", t) and r["r"] != (None if w is None else str(w)):
                return "%r is decoded as %r" % (t, r["r"])
            if re.match(rb"[^0-9+\-]", t) and r["r"] is not None:
                return "%r is decoded as %r" % (t, r["r"])
        return "ver", ["" if n is None else n, t], judge

    VERS = [b"", b"", b"", b"0", b"1", b"9", b"99", b"199", b"0099", b"a", b"a9", b"v1.9", b"9223372036854775807", b"-1", b"-9", b"1a", b"9a9", b"99x", b" ", b"\xff", b"7-"]

    def corpus(self):
        for v in self.VERS:
            ops = [(b"add", b"f", v, b"t")] + [(b"add", b"f", b"", b"u%d" % i) for i in range(3)] + [(b"get", b"f", b"", b"")]
            yield self.case([(lat(o[0]),) + o[1:] for o in ops])
        yield self.case([("add", b"f", b"", b"x%d" % i) for i in range(125)] + [("get", b"f", b"", b"")])
        for n in [None, 0, 1, -1, 2 ** 63 - 1, -2 ** 63, 10, 123456789]:
            for t in [b"", b"0", b"12", b"-5", b"9223372036854775807", b"9223372036854775808", b"x", b"1x", b"-"]:
                yield self.ver(n, t)

    def gen(self, rng):
        if rng.random() < 0.05:
            return self.ver(rng.choice([None, rng.randrange(-2 ** 63, 2 ** 63), rng.randrange(100)]), str(rng.randrange(-2 ** 64, 2 ** 64)).encode())
        fs = [b"/a", b"/b", b"/a/b", b""]
        ops = []
        for _ in range(rng.randrange(1, 25)):
            x, f = rng.random(), rng.choice(fs[:rng.choice([1, 2, 4])])
            if x < 0.5: ops.append(("add", f, rng.choice(self.VERS) if rng.random() < 0.7 else str(rng.randrange(10 ** rng.randrange(1, 22))).encode(), rng.choice([b"", b"x", b"text %d" % rng.randrange(99), b"\x00\xff"])))
            elif x < 0.8: ops.append(("get", f, b"", b""))
            elif x < 0.9: ops.append(("rm", f, b"", b""))
            else: ops.append(("files", b"", b"", b""))
        return self.case(ops)


# ----------------------------------------------------------------- descriptors
class FdGroup(NixdGroup):
    name, mod = "fd", "spec_fd"
    files = ("nixd/lib/Support/AutoCloseFD.cpp", "nixd/lib/Support/ForkPiped.cpp", "nixd/lib/Support/StreamProc.cpp")


FDFNS = ["nixd::util::AutoCloseFD::" + f for f in ("~AutoCloseFD", "AutoCloseFD#int", "AutoCloseFD#move", "get", "release", "isReleased#0", "isReleased#1")] + ["nixd::forkPiped", "nixd::StreamProc::StreamProc"]


class P24(NixdCheck):
    """Generated histories of wrapping, moving, releasing and destroying descriptors with every close() recorded; and real launches of a child
    that echoes its input on both outputs, with the parent's table of open descriptors compared before and after, also when descriptors run out."""
    pid = "P24"
    exe_name = "nixdfd"
    level, technique, level_note = "proof", Check.technique, PROVED
    groups = ((FdGroup, FDFNS),)
    tags = ("safety",)
    trusted = ("pipe gives two unused descriptors or fails, fork copies the descriptor table, dup2 succeeds, close closes also when it reports an error",
               "the standard descriptors of the process are open when it launches a child", "no other thread opens or closes descriptors of these pipes",
               "implicit destructor calls at scope ends are the compiler's", "std::make_unique constructs its argument; raw_fd_ostream closes its descriptor exactly when told to")
    bounded_desc = "histories of up to 20 operations; launches with payloads up to 2000 bytes and with 0 to 6 free descriptors"

    def hist(self, ops):
        def judge(r):
            own, piped = {}, {}
            n = k = 0
            for (op, a), x in zip(ops + [("end", 0)], r["r"]):
                want = []
                if op == "new":
                    own[n] = a
                    if x["val"] != [a, 0]:
                        return "a new wrapper of %d holds %r" % (a, x["val"])
                    n += 1
                elif op == "move":
                    own[n] = own[a]
                    own[a] = None
                    v = x["val"]
                    if own[n] is not None and v != [own[n], 0, 1]:
                        return "moving a wrapper of %d gives %r" % (own[n], v)
                    if own[n] is None and v[1:] != [1, 1]:
                        return "moving a released wrapper gives %r" % v
                    n += 1
                elif op == "rel":
                    own[a] = None
                    if x["val"] != [1, 1]:
                        return "a released wrapper says %r" % x["val"]
                elif op == "get":
                    if (x["val"] != [own[a], 0]) if own[a] is not None else x["val"][1] != 1:
                        return "the wrapper of %r says %r" % (own[a], x["val"])
                elif op == "drop":
                    if own[a] is not None:
                        want = [own[a]]
                    del own[a]
                elif op == "piped":
                    piped[k] = [a, a + 1, a + 2]
                    k += 1
                    if x["val"] != [a, a + 1, a + 2]:
                        return "the process record holds %r" % x["val"]
                elif op == "pmove":
                    piped[k] = piped[a]
                    piped[a] = []
                    k += 1
                elif op == "pdrop":
                    want = piped.pop(a)
                else:
                    want = [v for v in own.values() if v is not None] + [v for p in piped.values() for v in p]
                if sorted(x["closed"]) != sorted(want):
                    return "%s %d closes %r, not %r" % (op, a, x["closed"], want)
        return "fd", [x for o in ops for x in o], judge

    def launch(self, how, payload):
        def judge(r):
            if "died" in r:
                return "the launching process died (%d)" % r["died"]
            if r["thrown"]:
                if not how.startswith("limit"):
                    return "launching fails"
                return "a failed launch leaves descriptors %r open" % r["new"] if r["new"] else None
            if not r["pid"]:
                return "no process id is returned"
            fds = r["fds"]
            if len(set(fds)) != 3 or sorted(fds) != sorted(r["new"]):
                return "the parent is given %r and has %r open" % (fds, r["new"])
            if r["lost"]:
                return "the parent lost %r" % r["lost"]
            p = lat(payload)
            if r["out"] != "out(" + p + ")":
                return "from the child's standard output comes %r" % r["out"][:200]
            if r["err"] != "err(" + p + ")":
                return "from the child's standard error comes %r" % r["err"][:200]
            if r["status"] != 7:
                return "the child exits with %d" % r["status"]
        return "launch", [how, payload], judge

    def corpus(self):
        for p in [b"", b"x", b"hello\n" * 300]:
            yield self.launch("plain", p)
        for n in range(7):
            yield self.launch("limit%d" % n, b"z")
        yield self.hist([("new", 700), ("move", 0), ("drop", 1), ("drop", 0)])
        yield self.hist([("new", 700), ("rel", 0), ("move", 0), ("drop", 0)])
        yield self.hist([("new", 0), ("get", 0)])
        yield self.hist([("new", 0), ("move", 0), ("get", 1)])
        yield self.hist([("piped", 800), ("pmove", 0), ("pdrop", 0)])

    def gen(self, rng):
        if rng.random() < 0.02:
            return self.launch(rng.choice(["plain", "limit%d" % rng.randrange(7)]), bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2000]))))
        ops, live, plive, n, k, fd = [], [], [], 0, 0, rng.choice([0, 700])
        for _ in range(rng.randrange(1, 20)):
            x = rng.random()
            if x < 0.3 or not live:
                ops.append(("new", fd)); fd += 1; live.append(n); n += 1
            elif x < 0.5:
                ops.append(("move", rng.choice(live))); live.append(n); n += 1
            elif x < 0.6: ops.append(("rel", rng.choice(live)))
            elif x < 0.7: ops.append(("get", rng.choice(live)))
            elif x < 0.85:
                i = rng.choice(live); live.remove(i); ops.append(("drop", i))
            elif x < 0.93 or not plive:
                ops.append(("piped", 900 + fd)); fd += 3; plive.append(k); k += 1
            elif x < 0.97:
                ops.append(("pmove", rng.choice(plive))); plive.append(k); k += 1
            else:
                i = rng.choice(plive); plive.remove(i); ops.append(("pdrop", i))
        return self.hist(ops)


# ------------------------------------------------------------- diagnostics to LSP
class ConvertGroup(NixdGroup):
    name, mod = "convert", "spec_convert"
    files = ("gen/Diagnostic.cpp", "nixd/lib/Controller/Convert.cpp")


CONVERTFNS = ["nixf::Diagnostic::severity"] + ["nixd::" + f for f in ("getLSPSeverity", "toLSPTags", "toLSPPosition", "toLSPRange")]


class P25(NixdCheck):
    """Every diagnostic kind's published severity against its declared class, every sequence of tags up to length 4, and, for generated sources with
    characters of one to four bytes, the LSP range of every node, diagnostic, note and edit against a Python conversion of its byte offsets."""
    pid = "P25"
    exe_name = "nixdact"
    level, technique, level_note = "proof", Check.technique, PROVED
    groups = ((ConvertGroup, CONVERTFNS), (TextGroup, TEXTFNS))
    tags = ("safety",)
    trusted = ("texts are shorter than 2^31 bytes", "offsetToPosition is used through the contract proved for P15")
    bounded_desc = "all diagnostic kinds, all tag sequences up to length 4, generated and mutated programs with multi-byte characters"

    def prepare(self, w):
        NixdCheck.prepare(self, w)
        import os
        txt = open(os.path.join(w.gen, "DiagnosticEnum.h")).read()
        self.kinds = re.findall(r"\bDK_\w+", txt)

    def sev(self):
        import itertools
        tags = ["".join(t) for n in range(5) for t in itertools.product("fs", repeat=n)]
        def judge(r):
            fatal, err, warn, info, hint = r["enum"]
            want = {fatal: 1, err: 1, warn: 2, info: 3, hint: 4}
            for n, c, s in r["k"]:
                if s != want[c]:
                    return "%s of class %d is published with severity %d" % (n, c, s)
            u, d = r["tagvals"]
            if (u, d) != (1, 2):
                return "the LSP tag values are %r" % ((u, d),)
            for t, got in zip(tags, r["tags"]):
                if got != [u if c == "f" else d for c in t]:
                    return "the tags %r are published as %r" % (t, got)
        return "sev", [len(set(self.kinds))] + tags, judge

    def diags(self, src):
        b = src.encode()
        def judge(r):
            ps = positions(src)
            for a, z, rg, l, c in r["d"]:
                for o, p in ((a, tuple(rg[:2])), (z, tuple(rg[2:])), (a, (l, c))):
                    if o in ps and ps[o] != p:
                        return "in %r, byte %d is published at %r, not %r" % (src, o, p, ps[o])
                    if o > len(b):
                        return None
        return "diags", [b], judge

    def corpus(self):
        yield self.sev()
        for s in ["", "\u00e9", "# \U0001f600\n{ a = \u00e9; }", "\"\U0001f600\" + ", "{ a = \"\u00e9\"; a = 1; }", "''\n\U0001f600\n'' 00.1", "/* \u20ac */ { a, a }: a", "[ \"\U0001f600\" \u00e9 ]", "{\r\n a = 1\r\n}"]:
            yield self.diags(s)

    def gen(self, rng):
        from . import nixgen as G, props_parse as PP
        s, _ = G.program(rng, rng.choice([1, 2, 3]))
        if rng.random() < 0.5:
            s = PP.mutate(rng, s)
        out = ""
        for c in s:
            if c in " \n" and rng.random() < 0.15:
                c = rng.choice(["/*\u00e9*/", "/*\U0001f600*/", "#\u20ac\n", " \u00e9 ", "\n"]) + c
            elif ord(c) > 127:
                c = "\u00e9"
            out += c
        if rng.random() < 0.5:
            out = out.replace("\"", "\"\U0001f600", 1)
        return self.diags(out)


CHECKS = [P15, P16, P17, P18, P19, P22, P24, P25]


# ------------------------------------------------------------------------ RPC
def frame(body, hdr=b"", after=b""):
    return hdr + b"Content-Length: %d\r\n" % len(body) + after + b"\r\n" + body


def unframe(b):
    """-> (bodies, error)"""
    out = []
    while b:
        m = re.match(rb"Content-Length: ([0-9]+)\r\n\r\n", b)
        if not m:
            return out, "the output is not framed at %r" % b[:60]
        n = int(m.group(1))
        if len(b) < m.end() + n:
            return out, "the declared length %d exceeds what is written" % n
        out.append(b[m.end():m.end() + n])
        b = b[m.end() + n:]
    return out, None


def jval(rng, d=2):
    x = rng.random()
    if d == 0 or x < 0.5:
        return rng.choice([None, True, False, 0, 1, -1, 2 ** 31, 2 ** 53, -2 ** 63, 1.5, "", "a", "\u00e9", "\U0001f600", "a\nb", "\"", "\\", "x" * rng.choice([1, 200, 5000]) if rng.random() < 0.2 else "y"])
    if x < 0.75:
        return [jval(rng, d - 1) for _ in range(rng.randrange(4))]
    return {rng.choice(["a", "b", "k", "", "\u00e9", "id", "method"]): jval(rng, d - 1) for _ in range(rng.randrange(4))}


def jeq(a, b):
    """equality of JSON values, 1 and true being different"""
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(map(jeq, a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(jeq(a[k], b[k]) for k in a)
    return a == b


def dumps(v, rng=None):
    return json.dumps(v, ensure_ascii=rng.random() < 0.5 if rng else True, indent=rng.choice([None, None, 1]) if rng else None).encode("utf-8", "surrogatepass")


class WireGroup(NixdGroup):
    name, mod = "wire", "spec_wire"
    files = ("nixd/lspserver/src/Connection.cpp",)


WIREFNS = ["lspserver::readLine", "lspserver::InboundPort::readStandardMessage", "lspserver::OutboundPort::sendMessage"]


class P21(NixdCheck):
    """Streams of framed messages with other headers are read through a real pipe, written in chunks of every size from 1 byte, before or while the
    reader waits, also with the writing end already closed and with a non-blocking descriptor; exactly the messages and the untouched rest must come
    out.  Streams with broken headers, absurd lengths or a cut-off body must end in a report.  Messages of every kind are sent, also from
    several threads, and the output must consist of exact frames."""
    pid = "P21"
    exe_name = "nixdrpc"
    level, technique, level_note = "proof", Check.technique, PROVED
    groups = ((WireGroup, WIREFNS),)
    tags = ("safety",)
    trusted = ("read, poll and errno behave as POSIX says; a wait for input ends (termination only)",
               "StringRef::trim, getAsUnsignedInteger, the decimal output of raw_ostream, json::parse and the text formatv makes of a value are as specified",
               "the lit-test framing (readLitTestMessage) is not covered")
    bounded_desc = "streams of up to 8 messages of up to 5 KB (a few of 70 KB), chunk sizes 1 to 4096; 8 sending threads"

    def frames(self, msgs, stream, chunks, mode, want=0, rest=None):
        def judge(r):
            got = r["m"]
            w = list(msgs) + ([0] if want == 0 else [])
            if len(got) != len(w):
                return "%d messages are read, not %d: %r" % (len([g for g in got if g != 0]), len(msgs), [str(g)[:60] for g in got])
            for i, (g, m) in enumerate(zip(got, w)):
                if m == 0 and g == 0:
                    continue
                if isinstance(g, int) or not jeq(json.loads(g.encode("latin-1").decode("utf-8")), m):
                    return "message %d is read as %r" % (i, g if isinstance(g, int) else g[:200])
            if rest is not None and r.get("rest", "").encode("latin-1") != rest:
                return "%d bytes of the following %d are left" % (len(r.get("rest", "")), len(rest))
        return "frames", [stream, ",".join(map(str, chunks)), mode, want], judge

    def broken(self, stream, chunks, mode, ok=()):
        """the reader must stop by itself and give at most the messages in ok"""
        def judge(r):
            got = [g for g in r["m"] if not isinstance(g, int)]
            for g in got:
                if not any(jeq(json.loads(g.encode("latin-1").decode("utf-8")), m) for m in ok):
                    return "%r is read from a broken stream" % g[:200]
            if r["m"] and r["m"][-1] != 0:
                return "the end of the stream is not reported"
        return "frames", [stream, ",".join(map(str, chunks)), mode, 0], judge

    def send(self, msgs, pretty):
        fs = [pretty]
        for k, m, v, i in msgs:
            fs += [k, m.encode(), dumps(v), dumps(i)]
        def judge(r):
            bodies, e = unframe(r["out"].encode("latin-1"))
            if e:
                return e
            if len(bodies) != len(msgs):
                return "%d messages are written for %d" % (len(bodies), len(msgs))
            for b, (k, m, v, i) in zip(bodies, msgs):
                try:
                    g = json.loads(b.decode())
                except Exception:
                    return "a body is not JSON: %r" % b[:200]
                w = {"notify": {"jsonrpc": "2.0", "method": m, "params": v}, "call": {"jsonrpc": "2.0", "id": i, "method": m, "params": v}, "reply": {"jsonrpc": "2.0", "id": i, "result": v}, "raw": v}.get(k)
                if k == "error":
                    e = g.get("error")
                    if g.get("jsonrpc") != "2.0" or not jeq(g.get("id", 0), i) or "result" in g or not isinstance(e, dict) or e.get("message") != m or e.get("code") != -32602:
                        return "an error reply to %r is written as %r" % (i, g)
                elif not jeq(g, w):
                    return "%r is written as %r" % (w, g)
        return "send", fs, judge

    def sendmt(self, t, n, size):
        def judge(r):
            bodies, e = unframe(r["out"].encode("latin-1"))
            if e:
                return "with several senders: " + e
            got = sorted(tuple(json.loads(b)["params"][:2]) for b in bodies)
            if got != [(i, j) for i in range(t) for j in range(n)]:
                return "with several senders %d messages come out, not %d" % (len(got), t * n)
        return "sendmt", [t, n, size], judge

    HDRS = [b"", b"", b"Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n", b"X: y\r\n", b"X-Content-Length: 3\r\n", b"A:\r\nB: Content-Length: 9\r\n", b"Z: " + b"z" * 300 + b"\r\n"]

    def corpus(self):
        a, b = {"jsonrpc": "2.0", "id": 1}, ["\u00e9", "\U0001f600"]
        s = frame(dumps(a)) + frame(dumps(b), b"X: y\r\n", b"Q: r\r\n") + frame(json.dumps(b, ensure_ascii=False).encode())
        for mode in (0, 1, 2, 3):
            for ch in ([], [1], [2, 3], [7], [len(s) - 1], [20, 1, 1, 1]):
                yield self.frames([a, b, b], s, ch, mode)
        yield self.frames([a], s, [], 1, 1, s[len(frame(dumps(a))):])
        yield self.frames([a, b], s, [5], 0, 2, frame(json.dumps(b, ensure_ascii=False).encode()))
        big = {"k": "x" * 70000}
        yield self.frames([big, a], frame(dumps(big)) + frame(dumps(a)), [4096], 0)
        yield self.frames([big, a], frame(dumps(big)) + frame(dumps(a)), [1000, 9999], 2)
        for h in self.HDRS:
            yield self.frames([a], frame(dumps(a), h), [], 1)
            yield self.frames([a, b], frame(dumps(a), b"", h) + frame(dumps(b), h, h), [3], 0)
        yield self.frames([], b"", [], 1)
        for t in [b"Content-Length: 5", b"Content-Length: 5\r\n", b"Content-Length: 5\r\n\r\n", b"Content-Length: 5\r\n\r\n[1", b"\r\n\r\n", b"Content-Length: x\r\n\r\n", b"Content-Length: -1\r\n\r\n[]", b"Content-Length: 18446744073709551615\r\n\r\n[]", b"Content-Length: 18446744073709551616\r\n\r\n[]",
                  b"Content-Length: 1000000000000\r\n\r\n[]", b"Content-Length: 9223372036854775807\r\n\r\n[]", b"Content-Length: 4294967296\r\n\r\n[1]", b"Content-Length: \r\n\r\n", b"\x00\xff\r\n\r\n", b"abc", b"\n" * 50, b"Content-Length: 3\r\n\r\n[1]Content-Le", b"Content-Length: 2\r\n\r\n[1]x", b"Content-Length: 0\r\n\r\n"]:
            for mode in (0, 1, 2):
                yield self.broken(t, [], mode, [[1], []])
        for k in ("dir", "closed", "null"):
            yield "badfd", [k], lambda r: "a message is read from nothing" if r["ok"] else None
        for p in (0, 1):
            yield self.send([("notify", "m", None, None), ("call", "x/y", {"a": "\u00e9\U0001f600"}, 7), ("reply", "", [1, "\n"], "id"), ("error", "bad \u00e9", None, 3), ("raw", "", {"z": 1}, None)], p)
        yield self.sendmt(8, 40, 30)

    def gen(self, rng):
        x = rng.random()
        if x < 0.3:
            return self.send([(rng.choice(["notify", "call", "reply", "error", "raw"]), rng.choice(["m", "a/b", "\u00e9"]), jval(rng), rng.choice([0, 1, -5, "s", None, 2 ** 31, {"a": 1}])) for _ in range(rng.randrange(5))], rng.randrange(2))
        if x < 0.31:
            return self.sendmt(rng.choice([2, 4, 8]), 20, rng.choice([1, 100, 3000]))
        msgs = [jval(rng) for _ in range(rng.randrange(1, 6))]
        fr = [frame(dumps(m, rng), b"".join(rng.choice(self.HDRS) for _ in range(rng.choice([0, 0, 1, 2]))), rng.choice(self.HDRS)) for m in msgs]
        chunks = rng.choice([[], [], [rng.randrange(1, 30)], [rng.randrange(1, 200) for _ in range(5)], [64]])
        if sum(map(len, fr)) > 3000 and chunks:
            chunks = [c + 200 for c in chunks]
        mode = rng.choice([0, 1, 1, 1, 2])
        s = b"".join(fr)
        if len(s) > 60000:
            mode = 0
        if x < 0.8:
            if rng.random() < 0.3:
                k = rng.randrange(1, len(msgs) + 1)
                return self.frames(msgs[:k], s, chunks, mode, k, b"".join(fr[k:]))
            return self.frames(msgs, s, chunks, mode)
        cut = rng.randrange(len(s) + 1)
        # cut inside the last header or body: the whole messages before must still be read
        whole, pos = [], 0
        for m, f in zip(msgs, fr):
            if pos + len(f) > cut:
                break
            whole.append(m)
            pos += len(f)
        return self.frames(whole, s[:cut], chunks, mode)


class RpcGroup(NixdGroup):
    name, mod = "rpc", "spec_rpc"
    files = ("nixd/lspserver/src/Connection.cpp", "nixd/lspserver/src/LSPServer.cpp")


RPCFNS = ["lspserver::" + f for f in ("InboundPort::loop", "InboundPort::dispatch", "OutboundPort::notify", "OutboundPort::call", "OutboundPort::reply", "decodeError",
                                      "LSPServer::onNotify", "LSPServer::onCall", "LSPServer::onReply", "LSPServer::bindReply", "LSPServer::callMethod")]


class P20(NixdCheck):
    """Histories of incoming requests, notifications, replies and ill-formed messages, interleaved with outgoing calls, are dispatched to a real
    LSPServer with recording handlers, and compared with a model of JSON-RPC in Python: which handler ran with which parameters, which answers
    were written with which ids, which callback of an outgoing call ran with what, and that the server keeps serving.  Some histories run through a pipe
    and the server's own loop.  A call may be given up (answered with an error) only when more than 50 are pending."""
    pid = "P20"
    exe_name = "nixdrpc"
    level, technique, level_note = "proof", Check.technique, PROVED
    groups = ((RpcGroup, RPCFNS),)
    tags = ("safety",)
    trusted = ("JSON values: what the library says of a value is a function of the value", "std::map, llvm::StringMap and llvm::unique_function behave as specified; the tables are changed under their lock only",
               "handlers and callbacks are arbitrary functions that do not reach into the tables while they run; a handler calls the function it gets for answering at most once",
               "encodeError, and the binding templates of LSPBinder.h, are checked on inputs only", "a session has fewer than 2^31 - 1 outgoing calls")
    bounded_desc = "histories of up to 40 operations (and some with up to 260 outgoing calls)"

    def ev_out(self, st, m):
        """model of one incoming message: (events, replies as predicates)"""
        ev, out = [], []
        if not isinstance(m, dict) or m.get("jsonrpc") != "2.0":
            # nothing may run; an error may be answered
            return ev, [("maybe", m.get("id") if isinstance(m, dict) else None)]
        meth = m.get("method")
        p = m.get("params")
        if not isinstance(meth, str):
            if "id" in m:
                i = m["id"]
                if isinstance(i, int) and not isinstance(i, bool) and i in st["pending"]:
                    k = st["pending"].pop(i)
                    typed = k in st["typed"]
                    if isinstance(m.get("error"), dict):
                        ev.append(("failed", k, None))
                    else:
                        r = m.get("result")
                        if typed and not self.typed_ok(r):
                            ev.append(("failed", k, None))
                        else:
                            ev.append(("answer", k, {"s": r["s"], "n": r["n"]} if typed else r))
                    return ev, out
                if isinstance(i, float) and i.is_integer() and int(i) in st["pending"]:
                    return None, None
            return ev, [("maybe", m.get("id"))]
        if "id" in m:
            i = m["id"]
            if meth == "echo": ev.append(("echo", p)); out.append(("result", i, p))
            elif meth == "fail": ev.append(("fail", p)); out.append(("error", i, -32600))
            elif meth == "later": ev.append(("later", p)); st["later"].append((i, p))
            elif meth == "typed":
                if self.typed_ok(p):
                    ev.append(("typed", {"s": p["s"], "n": p["n"]})); out.append(("result", i, {"s": p["s"] + "!", "n": p["n"] + 1}))
                else:
                    out.append(("error", i, None))
            else: out.append(("error", i, None))
            return ev, out
        if meth == "note": ev.append(("note", p))
        elif meth == "echo": ev.append(("echonote", p))
        elif meth == "tnote":
            if self.typed_ok(p): ev.append(("tnote", {"s": p["s"], "n": p["n"]}))
        elif meth == "flush":
            ev.append(("flush",))
            for i, q in reversed(st["later"]):
                out.append(("laterresult", i, q))
            st["later"] = []
        elif meth == "exit":
            return None, None
        return ev, out

    @staticmethod
    def typed_ok(p):
        return isinstance(p, dict) and isinstance(p.get("s"), str) and isinstance(p.get("n"), int) and not isinstance(p.get("n"), bool) and -2 ** 31 <= p["n"] < 2 ** 31 - 1

    @staticmethod
    def ev_parse(s):
        s = s.encode("latin-1").decode("utf-8")
        k, _, rest = s.partition(" ")
        if k == "flush":
            return ("flush",)
        if k in ("answer", "failed"):
            n, _, v = rest.partition(" ")
            return (k, int(n), json.loads(v) if k == "answer" else None)
        return (k, json.loads(rest))

    @staticmethod
    def ev_eq(a, b):
        return len(a) == len(b) and a[0] == b[0] and all(jeq(x, y) for x, y in zip(a[1:], b[1:]))

    def cmp_out(self, want, got):
        # the most specific expectation first: an answer that only may come must not use up one that has to come
        want = sorted(want, key=lambda w: (w[0] == "maybe", w[0] == "error" and w[2] is None))
        for g in got:
            if not isinstance(g, dict) or g.get("jsonrpc") != "2.0":
                return "%r is written" % g
            for w in want:
                if not jeq(g.get("id", "none"), w[1]) and w[0] != "maybe":
                    continue
                if "method" in g:
                    continue
                if w[0] == "result" and "error" not in g and "result" in g and jeq(g["result"], w[2]):
                    break
                if w[0] == "laterresult" and "error" not in g and isinstance(g.get("result"), str) and jeq(json.loads(g["result"]), w[2]):
                    break
                if w[0] == "error" and "result" not in g and isinstance(g.get("error"), dict) and (w[2] is None or g["error"].get("code") == w[2]):
                    break
                if w[0] == "maybe" and "result" not in g and "error" in g:
                    break
            else:
                return "%r is written (expected %r)" % (g, want)
            want.remove(w)
        left = [w for w in want if w[0] != "maybe"]
        if left:
            return "the answer %r is not written" % (left[0],)

    def script(self, ops):
        """ops: ("msg", value) | ("ask", value) | ("asktyped",) | ("reply", k, message without id) ; reply is resolved with the assumption that ids are handed
        out as seen in the output, so such scripts are run in two passes by the caller"""
        fs = []
        for o in ops:
            fs += [o[0], dumps(o[1]) if len(o) > 1 else b"null"]
        def judge(r):
            st = {"pending": {}, "typed": set(), "later": []}
            asked = 0
            done = set()
            for n, (o, x) in enumerate(zip(ops, r["r"])):
                if x["thrown"]:
                    return "operation %d %s ends in an exception" % (n, str(o)[:200])
                bodies, e = unframe(x["out"].encode("latin-1"))
                if e:
                    return e
                got = [json.loads(b.decode()) for b in bodies]
                evs = [self.ev_parse(s) for s in x["ev"]]
                if o[0] in ("ask", "asktyped"):
                    k = asked
                    asked += 1
                    if len(got) != 1 or got[0].get("jsonrpc") != "2.0" or got[0].get("method") != ("client/ask" if o[0] == "ask" else "client/typed") or not jeq(got[0].get("params"), o[1] if o[0] == "ask" else {"s": "q", "n": 1}):
                        return "an outgoing call is written as %r" % (got,)
                    i = got[0].get("id")
                    if isinstance(i, bool) or not isinstance(i, (int, str)):
                        return "an outgoing call has the id %r" % (i,)
                    if i in st["pending"]:
                        return "two pending calls have the id %r" % (i,)
                    st["pending"][i] = k
                    if o[0] == "asktyped":
                        st["typed"].add(k)
                    for ev in evs:
                        if ev[0] == "failed" and ev[1] in st["pending"].values() and len(st["pending"]) > 50:
                            for a in [a for a, b in st["pending"].items() if b == ev[1]]:
                                del st["pending"][a]
                            done.add(ev[1])
                        else:
                            return "a new call makes %r happen" % (ev,)
                    continue
                if o[0] == "tell":
                    if evs or len(got) != 1 or not jeq(got[0], {"jsonrpc": "2.0", "method": "client/tell", "params": o[1]}):
                        return "an outgoing notification is written as %r" % (got,)
                    continue
                ev, out = self.ev_out(st, o[1])
                if ev is None:
                    break
                if not x["ret"]:
                    return "the server stops after %s" % str(o[1])[:200]
                for a in ev:
                    if a[0] in ("answer", "failed"):
                        if a[1] in done:
                            return "callback %d runs again" % a[1]
                        done.add(a[1])
                if len(ev) != len(evs) or not all(self.ev_eq(a, b) for a, b in zip(ev, evs)):
                    return "on %s the handlers do %r, not %r" % (str(o[1])[:200], evs, ev)
                e = self.cmp_out(out, got)
                if e:
                    return "on %s: %s" % (str(o[1])[:200], e)
        return "script", fs, judge

    def serve(self, msgs, chunks, mode, junk=()):
        """through a pipe and the server's loop; bodies in junk are framed but not JSON"""
        s = b"".join(frame(dumps(m)) if not isinstance(m, bytes) else frame(m) for m in msgs)
        def judge(r):
            st = {"pending": {}, "typed": set(), "later": []}
            bodies, e = unframe(r["out"].encode("latin-1"))
            if e:
                return e
            got = [json.loads(b.decode()) for b in bodies]
            wev, wout = [], []
            for m in msgs:
                if isinstance(m, bytes):
                    wout.append(("maybe", None))
                    continue
                ev, out = self.ev_out(st, m)
                if ev is None:
                    break
                wev += ev
                wout += out
            evs = [self.ev_parse(s) for s in r["ev"]]
            if len(wev) != len(evs) or not all(self.ev_eq(a, b) for a, b in zip(wev, evs)):
                return "the handlers do %r, not %r" % (evs, wev)
            return self.cmp_out(wout, got)
        return "serve", [s, ",".join(map(str, chunks)), mode], judge

    def req(self, rng, i=None):
        m = rng.choice(["echo", "fail", "later", "typed", "echo", "nope", "", "note", "exit2", "Echo", "flush"])
        v = {"jsonrpc": "2.0", "id": rng.choice([0, 1, 1, 2, -1, "a", "", None, 2 ** 40, 1.5, [1], {"a": 1}]) if i is None else i, "method": m}
        if rng.random() < 0.9:
            v["params"] = rng.choice([{"s": "x", "n": 3}, {"s": "x"}, {"s": 1, "n": 1}, {"n": 1, "s": "\u00e9", "extra": []}]) if m == "typed" else jval(rng)
        return v

    def message(self, rng):
        x = rng.random()
        if x < 0.45:
            return self.req(rng)
        if x < 0.7:
            m = rng.choice(["note", "tnote", "flush", "flush", "echo", "nope", "$/cancelRequest", ""])
            v = {"jsonrpc": "2.0", "method": m}
            if rng.random() < 0.9:
                v["params"] = rng.choice([{"s": "x", "n": 3}, {"s": 1}, None]) if m == "tnote" else jval(rng)
            return v
        if x < 0.9:
            i = rng.choice([1, 2, 3, 4, 5, 6, 1, 2, 3, 0, -1, 100, 2 ** 31 - 1, 2 ** 31, 2 ** 32 + 1, 2 ** 40, -2 ** 31 - 1, -2 ** 63, "1", "x", None, 1.5, [], {"a": 1}, True])
            v = {"jsonrpc": "2.0", "id": i}
            y = rng.random()
            if y < 0.5: v["result"] = rng.choice([jval(rng), {"s": "r", "n": 2}])
            elif y < 0.8: v["error"] = {"code": rng.choice([-32601, 1, 0]), "message": "m"}
            elif y < 0.85: v["error"] = rng.choice([{}, {"message": "only"}])
            elif y < 0.9: v["error"] = {"code": "x"}; v["result"] = 1
            return v
        return rng.choice([{}, [], None, 1, "x", {"jsonrpc": "1.0", "id": 1, "method": "echo"}, {"id": 1, "method": "echo"}, {"jsonrpc": 2.0, "method": "note"}, {"jsonrpc": "2.0"}, {"jsonrpc": "2.0", "method": 1}, {"jsonrpc": "2.0", "method": 1, "id": 900}, {"jsonrpc": "2.0", "params": []}, [{"jsonrpc": "2.0", "method": "note"}]])

    def corpus(self):
        R = lambda i, m, p=None: ("msg", {"jsonrpc": "2.0", "id": i, "method": m, "params": p})
        N = lambda m, p=None: ("msg", {"jsonrpc": "2.0", "method": m, "params": p})
        A = lambda i, v: ("msg", {"jsonrpc": "2.0", "id": i, "result": v})
        yield self.script([R(1, "echo", [1]), R("x", "fail", 2), R(3, "later", 3), R(4, "later", 4), N("flush"), R(5, "typed", {"s": "a", "n": 1}), R(6, "typed", {}), R(7, "nope"), N("nope"), N("note", 5), N("echo", 6), R(8, "echo", None)])
        for m in [{}, [], None, {"jsonrpc": "2.0"}, {"id": 1, "method": "echo"}, {"jsonrpc": "2.0", "id": 5, "result": 1}, {"jsonrpc": "2.0", "id": "s", "result": 1}, {"jsonrpc": "2.0", "id": 2 ** 31, "result": 1}, {"jsonrpc": "2.0", "id": None, "error": {}}, {"jsonrpc": "2.0", "id": 1.5, "result": 1}, {"jsonrpc": "2.0", "id": 9, "method": "nope"}]:
            yield self.script([("msg", m), R(1, "echo", 1)])
            yield self.serve([m, R(1, "echo", 1)[1]], [], 1)
        yield self.script([("ask", 1), ("ask", 2), ("asktyped",), A(2, "two"), A(2, "again"), A(1, None), A(3, {"s": "q", "n": 5}), ("ask", 4), A(4, 1)])
        yield self.script([("ask", 1), ("msg", {"jsonrpc": "2.0", "id": 1, "error": {"code": -32000, "message": "m"}}), A(1, 2)])
        yield self.script([("asktyped",), A(1, 7), ("asktyped",), A(2, None)])
        yield self.script([("ask", i) for i in range(120)] + [A(i, i) for i in range(0, 125)] + [R(1, "echo", 1)])
        yield self.script([("ask", i) for i in range(90)] + [A(i, i) for i in range(91, 0, -1)] + [("ask", i) for i in range(60)])
        # an id that wraps around to a pending one is not a match
        yield self.script([("ask", 1), A(2 ** 32 + 1, 9), A(-2 ** 32 + 1, 9), A(1, 3)])
        yield self.serve([R(1, "echo", 1)[1], b"{", R(2, "echo", 2)[1], b"", b"[1", R(3, "echo", 3)[1]], [], 1)
        yield self.serve([N("note", 1)[1], {"jsonrpc": "2.0", "method": "exit"}, N("note", 2)[1]], [], 1)

    def gen(self, rng):
        x = rng.random()
        if x < 0.25:
            return self.serve([self.message(rng) if rng.random() < 0.93 else rng.choice([b"{", b"", b"nul", b"[1,]", b"\xff"]) for _ in range(rng.randrange(1, 12))], rng.choice([[], [rng.randrange(1, 50)]]), rng.choice([0, 1, 1, 1]))
        ops = []
        for _ in range(rng.randrange(1, 40)):
            y = rng.random()
            if y < 0.25: ops.append(("ask", jval(rng)))
            elif y < 0.33: ops.append(("asktyped",))
            elif y < 0.36: ops.append(("tell", jval(rng)))
            else: ops.append(("msg", self.message(rng)))
        if rng.random() < 0.05:
            ops += [("ask", i) for i in range(rng.randrange(40, 220))] + [("msg", {"jsonrpc": "2.0", "id": rng.randrange(1, 200), "result": 1}) for _ in range(20)]
        return self.script(ops)


CHECKS = [P15, P16, P17, P18, P19, P20, P21, P22, P24, P25]
