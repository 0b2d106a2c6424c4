#!/usr/bin/env python3
"""mutcheck.py: (in a scratch copy, see mutate.py) one proof and one short bounded run of every property; prints one JSON line"""
import fnmatch, json, os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
check.ENV["CARGO_BUILD_JOBS"] = "2"
props = json.load(open(check.V + "/contracts/props.json"))
w = tempfile.mkdtemp(prefix="run-", dir=check.B)
out = {}
try:
    rc, e = check.build_replay()
    if rc:
        out["harness"] = "no build: " + e[-300:]
    else:
        hit = {}
        for p in props:
            h = check.harness(p, 1, int(os.environ.get("MUT_MS", "1500")), w, p)
            if h["ok"] is not True:
                hit[p] = [h.get("case", "")[:120], h.get("message", "")[:160]]
        out["harness"] = hit
    pr = {}
    rc, e = check.expand(w)
    check.prove(w, pr)
    if not pr.get("available"):
        out["proof"] = "unavailable: " + pr.get("why", "?")
    else:
        out["proof"] = {n: [m.split("\n")[0] for m in ms] for n, ms in pr["failed"].items()}
        out["undecided"] = list(pr["undecided"])
        fm = {f["fn"]: f for f in pr["map"]["functions"]}
        out["lost"] = [n for n, f in fm.items() if f["lost"] or f["unannotated"] or f["external"]] + pr["dropped"]
        out["props"] = sorted({p for p, c in props.items() for n, ms in pr["failed"].items() if any(fnmatch.fnmatchcase(n, x) for x in c["fns"])
                               and (c.get("kinds") != "total" or any(check.TOTAL.search(m.split("\n")[0]) for m in ms))})
finally:
    shutil.rmtree(w, ignore_errors=True)
print(json.dumps(out))
