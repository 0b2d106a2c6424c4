#!/usr/bin/env python3
"""tryrefactors.py [--full] [id...]: apply each behaviour-preserving edit of refactors.py to a scratch copy of /repo and run the proof on it.
Reports per edit: proved as before / functions lost (bounded only) / failed obligations (these would raise no-failing-input-found)."""
import sys, os, shutil, subprocess, json, runpy, fnmatch
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
S = "/tmp/rf"
os.makedirs(S + "/build/extract/debug", exist_ok=True)
check.build_extract()
shutil.copy(V + "/build/extract/debug/vp-extract", S + "/build/extract/debug/vp-extract")
check.B, check.REPO = S + "/build", S + "/repo"
R = runpy.run_path(V + "/tools/refactors.py")["R"]
ids = sys.argv[1:]
props = json.load(open(V + "/contracts/props.json"))
for name, edits in R:
    if ids and name not in ids:
        continue
    shutil.rmtree(S + "/repo", ignore_errors=True)
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
    os.makedirs(S + "/repo")
    subprocess.run("git -C /repo archive HEAD | tar x -C %s/repo" % S, shell=True, check=True)
    shutil.copy("/repo/Cargo.lock", S + "/repo/Cargo.lock") if os.path.exists("/repo/Cargo.lock") else None
    ok = True
    for f, a, b in edits:
        p = S + "/repo/" + f
        t = open(p).read()
        if t.count(a) < 1:
            print(name, "EDIT DOES NOT MATCH", f, a[:60].strip()); ok = False; break
        open(p, "w").write(t.replace(a, b, 1))
    if not ok:
        continue
    w = S + "/w"; shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    rc, e = check.expand(w)
    if rc != 0:
        print(name, "DOES NOT COMPILE", e[-800:]); continue
    res = {}
    check.prove(w, res)
    if not res.get("available"):
        print(name, "PROOF UNAVAILABLE:", res.get("why")); continue
    fm = {f["fn"]: f for f in res["map"]["functions"]}
    lost = {n: f["lost"] + f["unannotated"] + (["external"] if f["external"] else []) for n, f in fm.items() if f["lost"] or f["unannotated"] or f["external"]}
    helpers = [n for n, f in fm.items() if f["helper"]]
    inl = sorted({h for f in fm.values() for h in f.get("inlined", [])})
    hard, soft = [], []
    for n, m in res["failed"].items():
        f = fm.get(n)
        if f and (n in lost or f.get("inlined") or set(check.WEAK.findall(check.body_of(w, f))) - check.WEAK_PROVED.get(n, set()) or any(h.rsplit("::", 1)[-1] in check.body_of(w, f) for h in helpers)):
            soft.append(n)
        else:
            hard.append(n)
    st = "ALARM" if hard else ("bounded" if soft or lost or res["undecided"] or res["dropped"] else "proved")
    print("%-20s %-8s hard=%s soft=%s lost=%s undecided=%s dropped=%s helpers=%s inlined=%s" % (name, st, hard, soft, lost, list(res["undecided"]), res["dropped"], helpers, inl), flush=True)
    if hard and os.environ.get("SHOW"):
        for n in hard: print("\n".join(res["failed"][n][:2]))
shutil.rmtree(S, ignore_errors=True)
