"""Regenerates nxv/hints.json and nxv/cost.json: for every function under
contract, the loop invariants that suffice.  Hints only restrict the candidate
set tried first; if a proof fails with them the function is verified again
without, so they cannot make a proof succeed or fail."""
import json, os, re, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
import threading
threading.stack_size(256*1024*1024)
from nxv import runner, main as M, driver
from nxv.work import Work
import multiprocessing as mp


def one(job):
    gname, q = job
    g, db, spec, cs = runner._G[gname]
    fq, over, case = driver.split(q)
    c = cs[fq]
    fn = driver.pick(db, c, over)
    def tryh(h):
        r2 = driver.verify(db, spec, cs, g.models(), c, hints=h, budget=2000, fn=fn, case=case)
        return r2.status, len(r2.failed()), r2
    st, nf, r = tryh(None)
    h = {}
    for lk, names in r.loops:
        h.setdefault(lk, set()).update(n for n in names if not re.search(r'\bv\d+', n))
    if st != "ok" or not h:
        return q, None, r.time, nf
    st2, nf2, r1 = tryh(h)
    if st2 != "ok" or nf2 > nf:
        return q, None, r.time, nf
    best = r1.time
    cats = ["entry", "step", "opposite"] + g.hint_cats
    for cat in cats:
        h2 = {k: {n for n in v if not (cat in n and not n.endswith("<= N"))} for k, v in h.items()}
        if h2 == h: continue
        st3, nf3, r2 = tryh(h2)
        if st3 == "ok" and nf3 <= nf:
            h = h2; best = r2.time
    return q, {k: sorted(v) for k, v in h.items()}, best, nf


def main():
    w = Work()
    reg = M.registry()
    only = set(sys.argv[1:])
    todo = []
    seen = set()
    for pid, C in sorted(reg.items()):
        for g, names in C.groups:
            for q in names:
                if (g.name, q) in seen or (only and g.name not in only and q not in only): continue
                seen.add((g.name, q))
                if g.name not in runner._G:
                    gi = g(); db = runner.load_db(w, gi.files)
                    runner._G[g.name] = (gi, db, gi.spec(db), gi.contracts())
                todo.append((g.name, q))
    hp = os.path.join(runner.ROOT, "nxv", "hints.json"); cp = os.path.join(runner.ROOT, "nxv", "cost.json")
    H = json.load(open(hp)) if os.path.exists(hp) else {}
    C = json.load(open(cp)) if os.path.exists(cp) else {}
    keys = {q: runner._G[g][0].key(q) for g, q in todo}
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
        for q, h, t, nf in pool.imap_unordered(one, todo, chunksize=1):
            print(q, "hints" if h else "-", "%.1f" % t, "failed %d" % nf, flush=True)
            q = keys[q]
            if '@' not in q:
                if h: H[q] = h
                else: H.pop(q, None)
            C[q] = round(t, 1)
            json.dump(H, open(hp, "w"), indent=1, sort_keys=True)
            json.dump(C, open(cp, "w"), indent=1, sort_keys=True)


main()
