#!/usr/bin/env python3
"""Writes MANIFEST.json from contracts/props.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
cfg = json.load(open(V + "/contracts/props.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in cfg:
        na.append({"property": i, "reason": "the functions it depends on are not under contract yet"})
        continue
    c = cfg[i]
    note = ("Every obligation Verus generates from the contracts of the listed functions, extracted on each run from the macro-expanded current source, is discharged for all inputs and depths. "
            "Assumed: the contracts of the prelude on asn1-rs, nom, cookie-factory and core (listed in the evidence as trusted_base), the extraction rules of DESIGN.md, 64-bit usize. "
            "A bounded conformance run of the compiled crate against an independent oracle looks for failing inputs and covers what is listed as bounded.")
    if c.get("note"):
        note += " " + c["note"]
    d = {"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
         "evidence_file": "evidence/%s.json" % i, "technique": "contract-based deductive verification of the extracted real code (Verus/Z3), failing inputs replayed on the compiled crate",
         "level": c["level"], "level_note": note}
    if c.get("lemmas"):
        d["theorems"] = c["lemmas"]
    checks.append(d)
json.dump({"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo; the commits there are the fix: commits of known_findings.txt."}, open(V + "/MANIFEST.json", "w"), indent=1)
