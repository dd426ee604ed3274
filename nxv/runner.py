"""Runs one property's check: extract, prove function by function in parallel,
replay what fails, run the bounded oracle, write evidence, report."""
import concurrent.futures as cf, hashlib, json, multiprocessing as mp, os, random, sys, time, traceback
from . import work as W
from .proc import Batch, Crash, Hung

ROOT = W.ROOT
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"


class Violation:
    """One disagreement: props it speaks about, what, and the concrete input."""
    def __init__(self, props, what, inp=None, cmd=None, known=None):
        self.props = set(props); self.what = what; self.inp = inp; self.cmd = cmd; self.known = known


class Group:
    """A set of functions verified together."""
    name = ""
    files = ()            # translation units extracted
    budget = 500
    hints_decisive = False     # a function that fails with hints and is too costly without is undecided (for groups whose invariants are named after local variables)
    hint_cats = []
    own_hints = False     # hints kept apart from those of other groups with the same functions

    def key(self, q):
        return "%s:%s" % (self.name, q) if self.own_hints else q

    def spec(self, db): raise NotImplementedError
    def contracts(self): raise NotImplementedError       # {qualified name: Contract}
    def models(self):
        from .lib import Models
        return Models()

    def lemmas(self): return []                          # [(name, tags, [(obligation, hypotheses, goal)])]
    def specfuns(self): return []                        # specification functions whose stated facts are proved by induction

    def all_lemmas(self):
        from . import smt
        out = list(self.lemmas())
        for f in self.specfuns():
            l = smt.fact_lemma(f)
            if l is not None:
                out.append(("facts about %s" % f.name, ("lemma",), [("induction", l[0], l[1])]))
        return out

    def inputs(self, model): return []                   # z3 model -> concrete candidates


PROVED = ("every obligation of the listed functions' contracts is discharged for all inputs and all loop iterations; trusts the extractor, the VC generator, the library models "
          "and the solvers; code around the functions under contract is covered by the bounded layer only")


class ModGroup(Group):
    """functions whose specification is a module with SPEC, MODELS, contracts(), lemmas(), SPECFUNS"""
    mod = ""

    def m(self):
        import importlib
        return importlib.import_module("nxv." + self.mod)

    def spec(self, db): return self.m().SPEC()
    def models(self): return self.m().MODELS()
    def contracts(self): return self.m().contracts()
    def lemmas(self): return self.m().lemmas() if hasattr(self.m(), "lemmas") else []
    def specfuns(self): return getattr(self.m(), "SPECFUNS", [])


_G = {}


def load_db(w, files):
    from .db import DB
    db = DB()
    for p in w.extract_all(files):
        db.load(p)
    return db


def prove_one(job):
    gname, q, hints, budget = job
    from . import driver
    g, db, spec, cs = _G[gname]
    if q.startswith("lemma: "):
        return prove_lemma(gname, g, q)
    sys.setrecursionlimit(20000)
    fq, over, case = driver.split(q)
    c = cs[fq]
    try:
        fn = driver.pick(db, c, over)
        r = driver.verify(db, spec, cs, g.models(), c, budget=budget, fn=fn, hints=hints, case=case)
        second = False
        if hints is not None and (r.status not in ("ok", "missing") or r.failed()):
            r2 = driver.verify(db, spec, cs, g.models(), c, budget=150 if g.hints_decisive else max(30, min(budget, 660 - r.time)), fn=fn, hints=None, case=case)
            if r2.status == "ok" or r.status != "ok" or g.hints_decisive:
                r = r2
            second = True
    except Exception as e:
        return {"fn": q, "status": "unsupported", "error": "internal: " + traceback.format_exc(limit=-3), "obs": [], "loops": [], "assumed": [], "inlined": [], "time": 0, "queries": 0, "solver_time": 0, "where": None, "paths": 0, "group": gname, "inputs": []}
    obs = []
    inputs = []
    for o in r.obs:
        d = {"kind": o.kind, "line": o.line, "tags": list(o.tags), "status": o.status, "backend": o.backend, "time": round(o.time, 3)}
        if o.status != "ok":
            d["trace"] = driver.flat_trace(o.trace)
            if o.model is not None:
                try:
                    d["model"] = str(o.model)[:3000]
                    inputs += g.inputs(o.model)
                except Exception:
                    pass
        obs.append(d)
    return {"fn": q, "status": r.status, "error": r.error, "obs": obs, "loops": [(k, list(v)) for k, v in r.loops], "assumed": sorted(map(str, r.assumed)),
            "inlined": sorted(map(str, r.inlined)), "time": round(r.time, 2), "queries": r.queries, "solver_time": round(r.solver_time, 2), "where": r.where,
            "paths": r.paths, "group": gname, "inputs": inputs, "retried": second}


def prove_lemma(gname, g, q):
    """a consequence of the specification functions, by induction: each obligation is hypotheses |= goal"""
    from . import smt
    import z3
    t0 = time.time()
    q0, s0 = smt.STAT["queries"], smt.STAT["time"]
    obs = []
    for name, tags, items in g.all_lemmas():
        if "lemma: " + name != q:
            continue
        for nm, hyps, goal in items:
            t1 = time.time()
            own = [f for f in g.specfuns() if name == "facts about " + f.name]
            keep = [(f, f.body) for f in g.specfuns()]
            if own:      # only the given instances of the function itself may be used, and of functions listed later only their definitions
                later = False
                for f, body in keep:
                    if f is own[0]:
                        f.body, later = None, True
                    elif later:
                        f.body = lambda *a, body=body: list(body(*a))[-1:]
                smt._apps.clear(); smt._inst.clear()
            st, m, back = "unknown", None, ""
            for depth in (2, 3, 4):
                st, m, back = smt.prove(list(hyps), goal, depth)
                if st == "ok":
                    break
            if st == "ok" and hyps and smt.check(list(hyps) + smt.unfold(hyps, 1), 3000)[0] == z3.unsat:
                st, back = "fail", "contradictory hypotheses"
            if own:
                for f, body in keep:
                    f.body = body
                smt._apps.clear(); smt._inst.clear()
            obs.append({"kind": "%s (%s)" % (q, nm), "line": 0, "tags": list(tags), "status": st, "backend": back, "time": round(time.time() - t1, 3)})
    return {"fn": q, "status": "ok", "error": None, "obs": obs, "loops": [], "assumed": [], "inlined": [], "time": round(time.time() - t0, 2), "queries": smt.STAT["queries"] - q0,
            "solver_time": round(smt.STAT["time"] - s0, 2), "where": None, "paths": len(obs), "group": gname, "inputs": [], "retried": False}


def load_hints():
    p = os.path.join(ROOT, "nxv", "hints.json")
    if os.path.exists(p):
        with open(p) as f:
            return {q: {k: set(v) for k, v in h.items()} for q, h in json.load(f).items()}
    return {}


def prove(w, jobs, hints=True):
    """jobs: [(Group, [function names])]"""
    H = load_hints() if hints else {}
    todo = []
    for g, names in jobs:
        db = load_db(w, g.files)
        spec = g.spec(db)
        cs = g.contracts()
        _G[g.name] = (g, db, spec, cs)
        todo += [(g.name, q, H.get(g.key(q.split("@")[0])), g.budget) for q in names] + [(g.name, "lemma: " + n, None, g.budget) for n, _, _ in g.all_lemmas()]
    # longest first
    cost = {}
    p = os.path.join(ROOT, "nxv", "cost.json")
    if os.path.exists(p):
        with open(p) as f:
            cost = json.load(f)
    todo.sort(key=lambda j: -cost.get(_G[j[0]][0].key(j[1]), 5))
    if not todo:
        return []
    ctx = mp.get_context("fork")
    with cf.ProcessPoolExecutor(min(8, os.cpu_count() or 4), mp_context=ctx, max_tasks_per_child=1) if False else ctx.Pool(min(8, os.cpu_count() or 4), maxtasksperchild=1) as pool:
        return pool.map(prove_one, todo, chunksize=1)


class Check:
    pid = ""
    level = "proof"
    technique = "contract-based deductive verification of the extracted C++ (own VC generator, z3/cvc5), failed obligations replayed on the real code"
    level_note = ""
    groups = ()           # (Group class, [functions]) the property depends on
    tags = ()             # obligation tags that state this property (pid is implied)
    trusted = ()
    bounded_desc = ""
    quick_s, thorough_s = 12, 240

    def bounded(self, w, rng, stop, cands):
        """yields (nontrivial_key, sample, [Violation]) for each evaluated case"""
        return iter(())

    # ---------------------------------------------------------------- run
    def main(self):
        t0 = time.time()
        w = W.Work()
        self.w = w
        own = {self.pid} | set(self.tags)
        results, viol, known, stats = [], [], {}, {"evaluations": 0, "distinct": set(), "samples": []}
        noharness = None
        with cf.ThreadPoolExecutor(2) as tp:
            prep = tp.submit(self.prepare, w)
            jobs = [(g(), names) for g, names in self.groups]
            try:
                results = prove(w, jobs) if jobs else []
            except W.BuildError as e:
                print("extraction failed, nothing is proved on this tree:\n%s" % e)
                results = [{"fn": q, "status": "unsupported", "error": "extraction failed", "obs": [], "loops": [], "assumed": [], "inlined": [], "time": 0,
                            "queries": 0, "solver_time": 0, "where": None, "paths": 0, "group": g.name, "inputs": []} for g, names in jobs for q in names]
            try:
                prep.result()
            except W.BuildError as e:
                noharness = str(e)
                print("the replay harness does not build on this tree; only the proofs decide:\n%s" % noharness[-1500:])
        failed = []
        unsupported = []
        undecided = []
        for r in results:
            if r["status"] in ("unsupported", "budget"):
                unsupported.append(r)
            for o in r["obs"]:
                if o["status"] == "unknown":
                    undecided.append((r, o))
                elif o["status"] != "ok" and (own & set(o["tags"]) or "vacuity" in o["tags"]):
                    failed.append((r, o))
        cands = [i for r in results for i in r["inputs"]]
        limit = self.quick_s if TIER == "quick" else self.thorough_s
        if failed or any(own & set(o["tags"]) for _, o in undecided):
            limit = max(limit, 60)
        rng = random.Random(SEED)
        stop = time.time() + limit
        def explore():
            for key, sample, vs in self.bounded(w, rng, stop, cands):
                stats["evaluations"] += 1
                if key is not None:
                    stats["distinct"].add(hash(key))
                if sample is not None and len(stats["samples"]) < 5:
                    stats["samples"].append(sample)
                for v in vs:
                    if self.pid not in v.props:
                        continue
                    if v.known:
                        known.setdefault(v.known, v)
                    else:
                        viol.append(v)
                        return
        if noharness is None:
            try:
                explore()
            except Hung:
                print("the code under test keeps hanging; exploration stopped")
        wall = time.time() - t0
        stats["undecided"] = undecided
        stats["noharness"] = noharness
        out = self.report(results, failed, unsupported, viol, known, stats, wall)
        return out

    def prepare(self, w):
        pass

    def report(self, results, failed, unsupported, viol, known, stats, wall):
        findings = load_findings()
        for k, d in findings.items():
            if d["property"] == self.pid and not d["fixed"] and (k in known or self.still_known(k)):
                print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, k, d["what"]))
        for k, v in known.items():
            if k not in findings:
                viol.append(Violation({self.pid}, "unlisted finding %s: %s" % (k, v.what), v.inp, v.cmd))
        lines = []
        if failed or viol:
            lines.append(self.write_replay(failed, viol, results))
        obs = [o for r in results for o in r["obs"]]
        ok = sum(1 for o in obs if o["status"] == "ok")
        by = {}
        for o in obs:
            if o["status"] == "ok":
                by[o["backend"]] = by.get(o["backend"], 0) + 1
        own = {self.pid} | set(self.tags)
        ev = {
            "property": self.pid, "tier": TIER, "seed": SEED, "level": self.level,
            "coverage": {
                "obligations": len(obs), "discharged": ok,
                "obligations_stating_this_property": sum(1 for o in obs if own & set(o["tags"])),
                "obligations_failed_for_other_properties": sum(1 for o in obs if o["status"] != "ok" and not own & set(o["tags"])),
                "discharged_by_backend": by,
                "checker_cmd": "./check %s" % self.pid,
                "functions_under_contract": [{"function": r["fn"], "at": r["where"], "status": r["status"], "error": r["error"], "obligations": len(r["obs"]),
                                              "paths": r["paths"], "queries": r["queries"], "solver_s": r["solver_time"], "wall_s": r["time"],
                                              "loops_with_inferred_invariants": len(r["loops"]), "inlined": r["inlined"], "contracts_assumed": r["assumed"],
                                              "retried_without_hints": r.get("retried", False)} for r in results],
                "not_proved_bounded_only": [{"function": r["fn"], "why": r["error"]} for r in unsupported],
                "undecided_obligations": [{"function": r["fn"], "obligation": o["kind"], "line": o["line"]} for r, o in stats["undecided"]],
                "harness": "not built: " + stats["noharness"][-500:] if stats["noharness"] else "built from the current tree",
                "solver_s": round(sum(r["solver_time"] for r in results), 1),
                "trusted_base": list(TRUSTED) + list(self.trusted),
                "evaluations": stats["evaluations"], "distinct_nontrivial": len(stats["distinct"]),
                "rule": self.bounded_desc or "no bounded layer",
                "samples": stats["samples"] or [{"note": "no bounded case was run"}],
                "explanation": self.explain(),
            },
            "assumptions": list(TRUSTED) + list(self.trusted),
            "wall_s": round(wall, 2),
            "violations": len(lines),
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %d/%d obligations discharged over %d functions (%d outside the verifier's reach), %d bounded cases (%d distinct), %.1f s" %
              (self.pid, ok, len(obs), len({r["fn"].split("@")[0] for r in results}), len(unsupported), stats["evaluations"], len(stats["distinct"]), wall))
        for r in unsupported:
            print("  not proved (bounded only): %s: %s" % (r["fn"], (r["error"] or "").split("\n")[0]))
        for r, o in stats["undecided"]:
            print("  undecided (solver gave up; bounded only): %s: %s (line %s)" % (r["fn"], o["kind"], o["line"]))
        for l in lines:
            print(l)
        return 1 if lines else 0

    def still_known(self, k):
        return False

    def explain(self):
        return (self.__doc__ or "").strip()

    def write_replay(self, failed, viol, results):
        d = os.path.join(ROOT, "replays")
        os.makedirs(d, exist_ok=True)
        doc = {"property": self.pid,
               "failed_obligations": [{"function": r["fn"], "at": r["where"], "obligation": o["kind"], "line": o["line"], "status": o["status"], "backend": o["backend"],
                                       "path": o.get("trace"), "solver_model": o.get("model")} for r, o in failed[:10]]}
        for r, o in failed[:10]:
            print("  failed obligation: %s: %s (line %s) [%s]" % (r["fn"], o["kind"], o["line"], o["status"]))
        tail = ""
        if viol:
            v = viol[0]
            doc["failing_input"] = {"input_latin1": v.inp if isinstance(v.inp, (str, type(None))) else v.inp, "command": v.cmd, "what": v.what}
            print("  failing input: %r: %s" % (v.inp, v.what))
        else:
            doc["failing_input"] = None
            doc["note"] = "the verifier rejects the obligation; no failing input was found by replaying its model or by the bounded search"
            tail = " no-failing-input-found"
        h = hashlib.sha1(json.dumps(doc, sort_keys=True, default=str).encode()).hexdigest()[:10]
        p = os.path.join(d, "%s-%s.json" % (self.pid, h))
        with open(p, "w") as f:
            json.dump(doc, f, indent=1, default=str)
        return "VIOLATION property=%s replay=%s%s" % (self.pid, p, tail)


TRUSTED = [
    "the extractor (extract/nxextract.cpp over the Clang 18 AST) and the verification-condition generator (nxv/) are unverified",
    "z3 4.x and cvc5 1.1.2 are trusted",
    "library models of std::string, std::string_view, std::vector, std::map, std::optional, std::shared_ptr (nxv/lib.py) are assumed",
    "allocation never fails; the call stack is unbounded",
]


def load_findings():
    """known_findings.txt: 'known: property=P id=<id> <what>' / 'fixed: property=P <commit> <what>'"""
    out = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if not os.path.exists(p):
        return out
    for l in open(p):
        l = l.strip()
        if l.startswith("known: "):
            a, b, c = l[7:].split(" ", 2)
            out[b.split("=", 1)[1]] = {"property": a.split("=", 1)[1], "what": c, "fixed": False}
    return out
