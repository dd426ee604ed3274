"""Everything a check builds from /repo's current tree: generated headers, the
extractor, extracted program databases and the concrete harnesses.  Products
live in /verif/build/<hash of all inputs>/ and are rebuilt when the hash of
the sources changes."""
import fcntl, hashlib, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
LLVM = "/usr/lib/llvm-18"
ENV = {**{k: v for k, v in os.environ.items() if k not in ("CFLAGS", "CXXFLAGS", "CPPFLAGS", "LDFLAGS")}, "PYTHONDONTWRITEBYTECODE": "1"}


class BuildError(Exception):
    pass


def files(root, exts=(".h", ".cpp", ".inc", ".py", ".hh")):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in (".git", "_build", "build", "test", "__pycache__"))
        for f in sorted(fs):
            if f.endswith(exts):
                out.append(os.path.join(d, f))
    return out


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:16]


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, **kw)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def libnixf_sources():
    """all sources of libnixf but the code generators and the JSON printer of a tool"""
    out = []
    for d in ("Basic", "Parse", "Sema"):
        for f in sorted(os.listdir(os.path.join(REPO, "libnixf/src", d))):
            if f.endswith(".cpp") and not f.endswith("Gen.cpp") and f != "JSONDiagnostic.cpp":
                out.append("libnixf/src/%s/%s" % (d, f))
    return out


class Work:
    def __init__(self):
        self.src = files(os.path.join(REPO, "libnixf")) + files(os.path.join(REPO, "nixd"))
        self.srchash = digest(self.src)
        self.dir = os.path.join(BUILD, self.srchash)
        os.makedirs(self.dir, exist_ok=True)
        os.utime(self.dir)
        self.gen = os.path.join(self.dir, "gen")
        self.prune()
        self.times = {}

    def prune(self, keep=6):
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if len(d) == 16]
        ds.sort(key=os.path.getmtime, reverse=True)
        for d in ds[keep:]:
            shutil.rmtree(d, ignore_errors=True)

    def once(self, path, make):
        """Make `path` if it does not exist (safe against concurrent checks)."""
        if os.path.exists(path):
            return path
        t = time.time()
        with open(path + ".lock", "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not os.path.exists(path):
                tmp = path + ".tmp"
                if os.path.isdir(tmp):
                    shutil.rmtree(tmp)
                make(tmp)
                os.rename(tmp, path)
        self.times[os.path.basename(path)] = round(time.time() - t, 2)
        return path

    def generated(self):
        def make(tmp):
            os.makedirs(os.path.join(tmp, "nixf"))
            s = os.path.join(REPO, "libnixf/src")
            for f in ("Basic/DiagnosticEnum.h", "Basic/Diagnostic.cpp", "Parse/Tokens.h", "Parse/TokenKinds.inc"):
                run(["/usr/bin/python3", os.path.join(s, f + ".py"), os.path.join(tmp, os.path.basename(f))])
        return self.once(self.gen, make)

    def incs(self):
        r = REPO
        return ["-I" + r + "/libnixf/src", "-I" + r + "/libnixf/include", "-I" + r + "/libnixf/src/Parse", "-I" + self.gen,
                "-I" + r + "/nixd/lib", "-I" + r + "/nixd/include", "-I" + r + "/nixd/lspserver/include", "-I" + LLVM + "/include",
                "-I" + os.path.join(ROOT, "harness")]

    def extractor(self):
        src = os.path.join(ROOT, "extract/nxextract.cpp")
        d = os.path.join(BUILD, "tools")
        os.makedirs(d, exist_ok=True)
        exe = os.path.join(d, "nxextract-" + digest([src]))
        def make(tmp):
            run(["clang++-18", "-O1", "-std=c++17", "-fno-rtti", src, "-I" + LLVM + "/include", LLVM + "/lib/libclang-cpp.so.18.1",
                 "-L" + LLVM + "/lib", "-lLLVM-18", "-o", tmp])
        return self.once(exe, make)

    def extract(self, rel):
        """rel: path below /repo, or gen/<file>"""
        self.generated()
        exe = self.extractor()
        src = os.path.join(self.gen, rel[4:]) if rel.startswith("gen/") else os.path.join(REPO, rel)
        out = os.path.join(self.dir, "x-" + exe[-8:] + "-" + rel.replace("/", "_") + ".json")
        def make(tmp):
            if not os.path.exists(src):
                raise BuildError("missing source file " + src)
            with open(tmp, "w") as f:
                r = subprocess.run([exe, src, REPO + "," + self.gen, "--", "-std=gnu++20"] + self.incs() +
                                   ["-resource-dir", LLVM + "/lib/clang/18"], stdout=f, stderr=subprocess.PIPE, text=True, env=ENV)
            if r.returncode != 0:
                os.unlink(tmp)
                raise BuildError("extraction of %s failed\n%s" % (rel, r.stderr[-3000:]))
        return self.once(out, make)

    def extract_all(self, rels):
        self.generated(); self.extractor()
        with ThreadPoolExecutor(8) as p:
            return list(p.map(self.extract, rels))

    def harness(self, name, sources, flags=None, libs=(), asan=True):
        """Compile and link the given /repo sources (gen/..., harness/... allowed)."""
        self.generated()
        fl = ["-std=gnu++20", "-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-w"]
        if asan:
            fl += ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
        fl += list(flags or [])
        hs = files(os.path.join(ROOT, "harness"))
        exe = os.path.join(self.dir, "%s-%s" % (name, digest(hs, " ".join(fl) + " ".join(sources))))
        def make(tmp):
            od = os.path.join(self.dir, "obj-" + name)
            os.makedirs(od, exist_ok=True)
            def one(s):
                p = os.path.join(self.gen, s[4:]) if s.startswith("gen/") else os.path.join(ROOT, s) if s.startswith("harness/") else os.path.join(REPO, s)
                o = os.path.join(od, s.replace("/", "_") + ".o")
                run(["g++"] + fl + self.incs() + ["-c", p, "-o", o])
                return o
            with ThreadPoolExecutor(8) as p:
                objs = list(p.map(one, sources))
            run(["g++"] + fl + objs + list(libs) + ["-o", tmp])
        return self.once(exe, make)

    def nixfh(self):
        return self.harness("nixfh", libnixf_sources() + ["gen/Diagnostic.cpp", "harness/nixfh.cpp"])

    def nixdlsp(self):
        d = "nixd/lspserver/src"
        return ["%s/%s" % (d, f) for f in sorted(os.listdir(os.path.join(REPO, d))) if f.endswith(".cpp")]

    LIBS = ["-L" + LLVM + "/lib", "-lLLVM-18", "-Wl,-rpath," + LLVM + "/lib", "-lpthread"]

    def nixdtext(self):
        return self.harness("nixdtext", self.nixdlsp() + ["harness/nixdtext.cpp"], libs=self.LIBS)

    def nixdrpc(self):
        return self.harness("nixdrpc", self.nixdlsp() + ["harness/nixdrpc.cpp"], libs=self.LIBS)

    def nixdact(self):
        c = "nixd/lib/Controller/"
        return self.harness("nixdact", libnixf_sources() + ["gen/Diagnostic.cpp"] + self.nixdlsp() + [c + "Convert.cpp", c + "CodeActions/Utils.cpp", c + "CodeActions/JsonToNix.cpp", c + "CodeActions/RewriteString.cpp", "harness/nixdact.cpp"], libs=self.LIBS)

    def nixdfd(self):
        s = "nixd/lib/Support/"
        return self.harness("nixdfd", [s + "AutoCloseFD.cpp", s + "ForkPiped.cpp", "harness/nixdfd.cpp"], flags=["-Wl,--wrap=close"])
