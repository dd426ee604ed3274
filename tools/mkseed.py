#!/usr/bin/env python3
"""Author a planted bug: mkseed.py SPEC.py  (SPEC defines SEEDS, a list of dicts:
id, prop, edits=[(file, old, new)...], demo (file name -> text), needs, breaks).
Creates seeded/<id>/ from a scratch copy of /repo's HEAD."""
import json, os, runpy, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for s in runpy.run_path(sys.argv[1])["SEEDS"]:
    if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]:
        continue
    d = os.path.join(ROOT, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    wt = tempfile.mkdtemp(prefix="mkseed")
    subprocess.run("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x" % (wt, wt), shell=True, check=True)
    for f, old, new in s["edits"]:
        p = os.path.join(wt, f)
        t = open(p).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old))
        open(p, "w").write(t.replace(old, new))
        # original lines only: every removed line must exist in the base commit
    subprocess.run("cd %s && git diff > %s/patch.diff" % (wt, d), shell=True, check=True)
    shutil.rmtree(wt)
    base = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]
    for f, old, new in s["edits"]:
        bt = subprocess.run(["git", "-C", "/repo", "show", "ba9509d:" + f], capture_output=True, text=True).stdout
        ol, nl = old.splitlines(), new.splitlines()
        for l in ol:
            if l not in nl and l.strip() and not any(l.strip() in b for b in bt.splitlines()):
                print(s["id"], "WARNING: changed line not in the original:", l)
    for n, t in s["demo"].items():
        open(os.path.join(d, n), "w").write(t)
        if n.endswith(".sh"):
            os.chmod(os.path.join(d, n), 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    print("made", s["id"])
