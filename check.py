#!/usr/bin/env python3
"""check.py C## [--tier quick|thorough]   decide one property on /repo's current tree.

1. macro-expand /repo's crate, extract the functions under contract (vp-extract), verify them with Verus;
2. run the bounded conformance / replay harness (vp-replay) on the real compiled crate.
Exit 0: held.  Exit 1: VIOLATION line.  Exit 2: the tree cannot be built, or the tool chain is missing.
"""
import concurrent.futures as cf, fnmatch, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import oidrun
REPO = "/repo"
B = os.path.join(V, "build")
T0 = time.time()
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTFLAGS="")
ENV.pop("RUSTC_WRAPPER", None)


def run(cmd, timeout=600, cwd=None, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return -999, (e.stdout or b"").decode("utf8", "replace"), (e.stderr or b"").decode("utf8", "replace") + "\ntimeout"


def build_extract():
    rc, o, e = run(["cargo", "build", "--offline", "--locked", "--manifest-path", V + "/extract/Cargo.toml", "--target-dir", B + "/extract"])
    return rc, e


def build_replay():
    rc, o, e = run(["cargo", "build", "--offline", "--manifest-path", V + "/replay/Cargo.toml", "--target-dir", B + "/replay"], env=dict(ENV, CARGO_BUILD_JOBS="8"))
    return rc, e


def expand(work):
    rc, o, e = run(["cargo", "+nightly", "rustc", "--offline", "--manifest-path", REPO + "/Cargo.toml", "-p", "der-parser", "--lib", "--all-features",
                    "--target-dir", B + "/expand", "--", "-Zunpretty=expanded"])
    if rc == 0:
        open(work + "/expanded.rs", "w").write(o + oid_module())
        # the dependency whose contracts the crate's proof uses (see dep_prove)
        rc2, o2, e2 = run(["cargo", "+nightly", "rustc", "--offline", "--manifest-path", REPO + "/Cargo.toml", "-p", "asn1-rs", "--lib", "--all-features",
                           "--target-dir", B + "/expand", "--", "-Zunpretty=expanded"])
        if rc2 == 0 and o2:
            open(work + "/asn1.rs", "w").write(o2)
    return rc, e


def oid_module():
    """the crate der-oid-macro, macro-expanded, as a module of the text to extract from"""
    rc, o, e = run(["cargo", "+nightly", "rustc", "--offline", "--manifest-path", REPO + "/der-oid-macro/Cargo.toml", "--lib",
                    "--target-dir", B + "/expand-oid", "--", "-Zunpretty=expanded"])
    if rc != 0 or not o:
        return ""
    o = re.sub(r"^#!\[.*\]\n|^extern crate std;\n|^#\[prelude_import\]\nuse .*;\n|^#\[proc_macro.*\]\n", "", o, flags=re.M)
    return "\npub mod oid_macro {\n" + o.split("\nconst _: () =")[0] + "\n}\n"


# ------------------------------------------------------------------ Verus
def verus(work, args=(), name="out.rs"):
    rc, o, e = run(["verus", work + "/" + name, "--multiple-errors", "4", "--triggers-mode", "silent", "--output-json", "--time-expanded",
                    "--error-format=json", "--rlimit", "40", *args], timeout=500, cwd=work)
    try:
        j = json.loads(o[o.index("{"):])
    except Exception:
        j = None
    diags = []
    for line in e.splitlines():
        if line.startswith("{"):
            try:
                d = json.loads(line)
            except Exception:
                continue
            if d.get("level") == "error":
                diags.append(d)
    return rc, j, diags, e


def spans(d, file="out.rs"):
    out = []
    for s in d.get("spans", []):
        if s["file_name"].endswith(file):
            out.append((bool(s["is_primary"]), s["line_start"], s.get("label") or ""))
    for c in d.get("children", []):
        for s in c.get("spans", []):
            if s["file_name"].endswith(file):
                out.append((False, s["line_start"], s.get("label") or ""))
    return sorted(out, key=lambda x: not x[0])


def prelude_text(sub="verus"):
    d = V + "/" + sub
    return "".join(open(d + "/" + f).read() for f in sorted(os.listdir(d)) if f.endswith(".rs"))


def prelude_items(text):
    """(name, first line, last line) of the functions of the prelude"""
    lines, out = text.splitlines(), []
    pat = re.compile(r"^\s*(?:pub )?(?:broadcast )?(?:open )?(?:uninterp )?(proof fn|spec fn|axiom fn|fn)\s+(\w+)")
    heads = [(k + 1, m.group(2), m.group(1)) for k, l in enumerate(lines) if (m := pat.match(l))]
    for n, (a, name, kind) in enumerate(heads):
        b = heads[n + 1][0] - 1 if n + 1 < len(heads) else len(lines)
        out.append((name, a, b, kind))
    return out


def changed(mp, external):
    """functions whose text is not the one recorded when the contracts were written (only used to find what the front end cannot take)"""
    base = baseline()
    return [f["fn"] for f in mp["functions"] if base.get(f["fn"], [0])[0] != f["hash"] and f["fn"] not in external]


def baseline():
    return json.load(open(V + "/contracts/baseline.json"))


# operations whose specification the prover has only bit by bit: a proof that fails around one says nothing
WEAK = re.compile(r"\b(leading_zeros|trailing_zeros|leading_ones|trailing_ones|count_ones|count_zeros|ilog2|ilog10|ilog|checked_ilog2|rotate_left|rotate_right|"
                  r"swap_bytes|reverse_bits|pow|checked_pow|next_power_of_two|is_power_of_two|div_ceil|next_multiple_of|to_le_bytes|to_ne_bytes)\b *\(")

WEAK_PROVED = {"oid_macro::encode_components": {"leading_zeros"}}


def prove(work, res):
    """extract and verify; fills res"""
    external, dropped = [], []
    res.update(rounds=[], failed={}, undecided={}, available=False)
    prelude = prelude_text()
    open(work + "/prelude.rs", "w").write(prelude)
    pitems = prelude_items(prelude)
    nprel = prelude.count("\n")
    for rnd in range(8):
        cmd = [B + "/extract/debug/vp-extract", work + "/expanded.rs", V + "/contracts", work + "/prelude.rs", work + "/out.rs", work + "/map.json",
               "--external", ",".join(external), "--drop", ",".join(dropped)]
        rc, o, e = run(cmd)
        if rc != 0:
            res["why"] = "extraction failed: " + e[-600:]
            return
        mp = json.load(open(work + "/map.json"))
        res["map"] = mp
        base = baseline()
        for f in mp["functions"]:
            # an invariant is written for one kind of loop (loop, while, for): another kind is a lost anchor
            if f["fn"] in base and base[f["fn"]][1] != f["loops"] and not f["lost"]:
                f["lost"] = ["loops %r became %r" % (base[f["fn"]][1], f["loops"])]
        rc, j, diags, err = verus(work)
        if j is None:
            ch = changed(mp, external)
            if ch:
                res["rounds"].append({"unsupported": ch, "first": [err[-200:]]})
                external += ch
                continue
            res["why"] = "verus gave no answer: " + err[-600:]
            return
        vr = j["verification-results"]
        res["results"] = {k: vr.get(k) for k in ("verified", "errors", "success")}
        res["smt_ms"] = j.get("times-ms", {}).get("smt", {}).get("total")
        res["total_ms"] = j.get("times-ms", {}).get("total")
        res["version"] = j.get("verus", {}).get("version")

        def owner(d):
            for prim, line, label in spans(d):
                for f in mp["functions"]:
                    if f["start"] <= line < f["end"]:
                        return f["fn"]
            for prim, line, label in spans(d):
                if line <= nprel:
                    for name, a, b, kind in pitems:
                        if a <= line <= b:
                            return "prelude::" + name
            return None

        fatal = vr.get("encountered-vir-error") or (vr.get("encountered-error") and not vr.get("verified"))
        if fatal or (not vr.get("success") and not vr.get("errors")):
            bad = sorted({owner(d) for d in diags if d.get("spans")} - {None})
            real = [b for b in bad if not b.startswith("prelude::")]
            res["rounds"].append({"unsupported": bad, "first": [d["message"][:200] for d in diags[:4]]})
            if not real:
                # the front end stopped without a place: set aside the functions that are not as they were when the contracts were written
                real = changed(mp, external)
            if not real:
                res["why"] = "verus front end rejected the extracted crate: " + "; ".join(d["message"][:160] for d in diags[:4])
                return
            for f in real:
                if f in external:
                    external.remove(f)
                    dropped.append(f)
                else:
                    external.append(f)
            continue
        res["available"] = True
        for d in diags:
            if not d.get("spans"):
                continue
            f = owner(d) or "?"
            m = d["message"]
            txt = d.get("rendered", m)
            if "rlimit" in m.lower() or "resource limit" in m.lower() or "timeout" in m.lower():
                res["undecided"].setdefault(f, []).append(txt)
            else:
                res["failed"].setdefault(f, []).append(txt)
        res["external"], res["dropped"] = external, dropped
        fb = []
        for md in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
            fb += md.get("function-breakdown", [])
        res["breakdown"] = fb
        return
    res["why"] = "gave up after 8 rounds of setting functions aside"


def dep_swap(text):
    sys.path.insert(0, V + "/tools")
    import depswap
    return depswap.swap(text)


def dep_build(work, d, canary=None):
    """the crate of the run with its assumed asn1-rs contracts put on the functions of asn1-rs itself (mechanically extracted):
    writes d/out.rs; returns (map, first line of the support module, names of the modules to verify) or a string: why not"""
    if not os.path.exists(work + "/asn1.rs"):
        return "asn1-rs could not be expanded"
    sup = prelude_text("verus_dep")
    if canary == "entry":
        sup, _ = canary_lemmas(sup)
    open(d + "/dprelude.rs", "w").write(prelude_text() + sup)
    rc, o, e = run([B + "/extract/debug/vp-extract", work + "/asn1.rs", V + "/contracts_dep", d + "/dprelude.rs", d + "/dep.rs", d + "/dmap.json", "--dep", "1"],
                   env=dict(ENV, VP_CANARY=canary) if canary else None)
    if rc != 0:
        return "extraction failed: " + e[-300:]
    mp = json.load(open(d + "/dmap.json"))
    bad = mp["missing"] + mp["differs"] + [f["fn"] for f in mp["functions"] if f["lost"] or f["unannotated"] or f["external"]]
    if bad:
        return "asn1-rs is not the one the contracts were written for: " + ", ".join(map(str, bad[:4]))
    main, n = dep_swap(open(work + "/out.rs").read())
    dep = open(d + "/dep.rs").read()
    if not main.endswith("\n"):
        main += "\n"
    open(d + "/depall.rs", "w").write(main + sup + dep)
    mods = ["asn1_rs", "vder", "depsup"] + ["dep::" + m for m in re.findall(r"^pub mod (\w+)", dep, re.M) if m != "dep"]
    return mp, main.count("\n"), main.count("\n") + sup.count("\n"), mods, n


def dep_prove(work, res):
    """discharge the contracts the proof assumes of asn1-rs from asn1-rs' own source; a failure here is a note, never a violation"""
    d = work + "/dep"
    os.makedirs(d, exist_ok=True)
    t = time.time()
    r = dep_build(work, d)
    if isinstance(r, str):
        res["dep"] = {"ok": False, "why": r}
        return
    mp, _, off, mods, n = r
    rc, j, diags, err = verus(d, [a for m in mods for a in ("--verify-only-module", m)], "depall.rs")
    vr = (j or {}).get("verification-results", {})
    if not vr.get("success") or not vr.get("verified") or vr.get("errors"):
        res["dep"] = {"ok": False, "why": "; ".join(x["message"][:120] for x in diags[:3]) or err[-300:]}
        return
    res["dep"] = {"ok": True, "verified": vr["verified"], "contracts_discharged": n, "functions": [f["fn"] for f in mp["functions"] if not f["trusted"]],
                  "smt_ms": j.get("times-ms", {}).get("smt", {}).get("total"), "wall_s": round(time.time() - t, 1)}


def canary_lemmas(text):
    lines, lem = text.split("\n"), []
    for k, l in enumerate(lines):
        m = re.match(r"\s*(?:pub )?(?:broadcast )?proof fn (\w+)", l)
        if m:
            j = k + 1
            while not lines[j].lstrip().startswith("{"):
                j += 1
            lines[j] = lines[j].replace("{", "{ assert(false); ", 1)
            lem.append((m.group(1), k + 1))
    return "\n".join(lines), lem


def dep_canary(work):
    out = {}
    for kind in ("entry", "end"):
        d = work + "/dcanary"
        os.makedirs(d, exist_ok=True)
        r = dep_build(work, d, kind)
        if isinstance(r, str):
            return {"error": r}
        mp, sup0, off, mods, n = r
        rc, j, diags, err = verus(d, [a for m in mods for a in ("--verify-only-module", m)], "depall.rs")
        if j is None or not j["verification-results"].get("errors"):
            return {"error": "verus gave no answer: " + "; ".join(x["message"][:160] for x in diags[:4]) + err[-300:]}
        hit = [line for x in diags for prim, line, label in spans(x, "depall.rs") if prim]
        bad = [f["fn"] for f in mp["functions"] if not f["trusted"] and not any(f["start"] + off <= h < f["end"] + off for h in hit)]
        out["n_" + kind] = len(mp["functions"])
        if kind == "entry":
            sup, lem = canary_lemmas(prelude_text("verus_dep"))
            pit = prelude_items(sup)
            for name, k in lem:
                a, b = next((a, b) for n_, a, b, kd in pit if a == k)
                if not any(a + sup0 <= h <= b + sup0 for h in hit):
                    bad.append("prelude::" + name)
            out["n_" + kind] += len(lem)
        out[kind] = bad
    return out


def canary(work, external, dropped):
    """Vacuity: with an obligation `false` put at the entry (then at the end) of every function and lemma, each of them must fail.
    Returns {"entry": [names that do not], "end": [...], "n": count}."""
    out = {}
    prelude = prelude_text()
    for kind in ("entry", "end"):
        d = work + "/canary"
        os.makedirs(d, exist_ok=True)
        text, lem = canary_lemmas(prelude) if kind == "entry" else (prelude, [])
        open(d + "/prelude.rs", "w").write(text)
        rc, o, e = run([B + "/extract/debug/vp-extract", work + "/expanded.rs", V + "/contracts", d + "/prelude.rs", d + "/out.rs", d + "/map.json",
                        "--external", ",".join(external), "--drop", ",".join(dropped)], env=dict(ENV, VP_CANARY=kind))
        if rc != 0:
            return {"error": "extraction failed: " + e[-300:]}
        rc, j, diags, err = verus(d)
        if j is None or not j["verification-results"].get("errors"):
            return {"error": "verus gave no answer: " + "; ".join(x["message"][:160] for x in diags[:4]) + err[-300:]}
        mp = json.load(open(d + "/map.json"))
        hit = [line for x in diags for prim, line, label in spans(x) if prim]
        bad = [f["fn"] for f in mp["functions"] if not f["external"] and not f["trusted"] and not any(f["start"] <= h < f["end"] for h in hit)]
        pit = prelude_items(text)
        for name, k in lem:
            a, b = next((a, b) for n_, a, b, kd in pit if a == k)
            if not any(a <= h <= b for h in hit):
                bad.append("prelude::" + name)
        out[kind] = bad
        out["n_" + kind] = len(mp["functions"]) + len(lem)
    return out


# ------------------------------------------------------------------ harness
def harness(prop, seed, ms, work, tag):
    if prop == "C21":
        return oidrun.harness(sys.modules[__name__], seed, ms, work, tag)
    d = work + "/h" + tag
    os.makedirs(d, exist_ok=True)
    exe = B + "/replay/debug/vp-replay"
    rc, o, e = run([exe, prop, "--seed", str(seed), "--budget-ms", str(ms), "--work", d, "--threads", "8"], timeout=ms / 1000 + 240)
    try:
        j = json.loads(o.strip().splitlines()[-1])
    except Exception:
        j = {}
    if rc == 0:
        return {"ok": True, **j}
    if rc == 3:
        return {"ok": False, **j}
    # hang or crash: which case?
    cases = []
    for f in sorted(os.listdir(d)):
        if f.startswith("cur."):
            t = open(d + "/" + f, errors="replace").read().split("\n")[0]
            if t:
                cases.append(t)
    if "hang" in j:
        k = j["hang"]
        try:
            cases = [open("%s/cur.%d" % (d, k)).read().split("\n")[0]]
        except OSError:
            pass
    for t in cases:
        open(d + "/one", "w").write("case: " + t + "\n")
        rc2, o2, e2 = run([exe, prop, "--replay", d + "/one"], timeout=60)
        if rc2 != 0:
            why = "does not return within 60 s" if rc2 == -999 else ("process ended with status %d (stack overflow or abort): %s" % (rc2, e2[-200:].strip()))
            if rc2 == 3:
                why = o2.strip()
            return {"ok": False, "case": t, "message": why, **{k: v for k, v in j.items() if k not in ("case", "message")}}
    return {"ok": None, "message": "the harness ended with status %s and no case reproduces it: %s" % (rc, e[-300:])}


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = json.load(open(V + "/contracts/props.json"))[prop]
    os.makedirs(B, exist_ok=True)
    os.makedirs(V + "/evidence", exist_ok=True)
    work = tempfile.mkdtemp(prefix="run-", dir=B)
    try:
        code = decide(prop, tier, seed, cfg, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def decide(prop, tier, seed, cfg, work):
    ms = 6000 if tier == "quick" else 180000
    with cf.ThreadPoolExecutor(4) as ex:
        fx, fr, fe = ex.submit(build_extract), ex.submit(build_replay if prop != "C21" else lambda: (0, "")), ex.submit(expand, work)
        pr = {}

        def proof():
            rc, e = fe.result()
            if rc != 0:
                pr["why"] = "expansion failed: " + e[-600:]
                return
            rc, e = fx.result()
            if rc != 0:
                pr["why"] = "extractor does not build: " + e[-600:]
                return
            prove(work, pr)
            if pr.get("available"):
                dep_prove(work, pr)
        fp = ex.submit(proof)
        rrc, rerr = fr.result()
        if rrc != 0:
            fp.result()
            print("error: the harness does not build against /repo:\n" + rerr[-3000:])
            return 2
        h = harness(prop, seed, ms, work, "0")
        fp.result()
    runs = [h]

    # ---- what the verifier said about this property's functions
    want = cfg["fns"]
    mine, lost, failed, undecided = [], [], {}, {}
    if pr.get("available"):
        fmap = {f["fn"]: f for f in pr["map"]["functions"]}
        def match(name):
            return any(fnmatch.fnmatchcase(name, w) for w in want)
        for n, f in fmap.items():
            if match(n) and not f["helper"]:
                mine.append(n)
        for n in pr["map"]["missing"]:
            if match(n):
                lost.append(n + ": no function of that path in the tree")
        for n in mine:
            f = fmap[n]
            if f["external"]:
                lost.append(n + ": outside the verifier's language as now written")
            if f["lost"]:
                lost.append(n + ": annotation without its anchor: " + ", ".join(f["lost"]))
            if f["unannotated"]:
                lost.append(n + ": without annotation: " + ", ".join(f["unannotated"]))
        for n in pr["dropped"]:
            if match(n):
                lost.append(n + ": outside the verifier's language as now written")
        lem = cfg.get("lemmas", [])
        for src, dst in ((pr["failed"], failed), (pr["undecided"], undecided)):
            for n, msgs in src.items():
                if match(n) or (n.startswith("prelude::") and n[9:] in lem):
                    if cfg.get("kinds") == "total":
                        # only the obligations that make a function total belong to this property
                        msgs = [m for m in msgs if TOTAL.search(m.split("\n")[0])]
                    if msgs:
                        dst[n] = msgs
    else:
        lost.append("proof not available: " + pr.get("why", "?"))
        lem = []

    # helpers without contract that the failing functions call make the failure undecided
    known_helpers = set(json.load(open(V + "/contracts/helpers.json")))
    new_helpers = []
    if pr.get("available"):
        new_helpers = [f["fn"] for f in pr["map"]["functions"] if f["helper"] and f["fn"] not in known_helpers]
    hard = {}
    for n, msgs in failed.items():
        f = fmap.get(n)
        if f and (f["lost"] or f["unannotated"] or f["external"]):
            undecided[n] = msgs
        elif f and f["inlined"]:
            undecided[n] = msgs
            lost.append(n + ": not proved with its helpers inlined: " + ", ".join(f["inlined"]))
        elif new_helpers and any(h_.rsplit("::", 1)[-1] in body_of(work, f) for h_ in new_helpers if f):
            undecided[n] = msgs
            lost.append(n + ": calls a function without contract: " + ", ".join(new_helpers))
        elif f and set(WEAK.findall(body_of(work, f))) - WEAK_PROVED.get(f["fn"], set()):
            undecided[n] = msgs
            lost.append(n + ": computes with bit counts, which the contracts have no theory of")
        else:
            hard[n] = msgs

    verdict, replay = 0, None
    if h["ok"] is False:
        verdict = 1
    elif failed or undecided or lost or h["ok"] is None:
        # the proof does not stand as before: search the real code for a failing input for longer
        n = 0
        while n < (3 if tier == "quick" else 6):
            n += 1
            h2 = harness(prop, seed * 1000 + n, 15000 if tier == "quick" else 60000, work, str(n))
            runs.append(h2)
            if h2["ok"] is False:
                h, verdict = h2, 1
                break
    can = None
    if tier == "thorough" and pr.get("available"):
        can = canary(work, pr["external"], pr["dropped"])
        if pr.get("dep", {}).get("ok"):
            can["asn1_rs"] = dep_canary(work)
    rdir = V + "/evidence/replay"
    lines = []
    if verdict == 1:
        os.makedirs(rdir, exist_ok=True)
        replay = "%s/%s.txt" % (rdir, prop)
        with open(replay, "w") as f:
            f.write("property: %s\ncase: %s\nmessage: %s\n" % (prop, h["case"], h["message"]))
            f.write("replay: python3 %s/check.py --replay-oid %s\n" % (V, replay) if prop == "C21" else
                    "replay: %s %s --replay %s   (build it with: python3 %s/check.py --build)\n" % (B + "/replay/debug/vp-replay", prop, replay, V))
            for n, msgs in {**hard, **undecided}.items():
                f.write("\nobligation not discharged in %s:\n%s\n" % (n, "\n".join(msgs[:4])))
        lines.append("failing input: %s\n  %s" % (h["case"][:600], h["message"][:1200]))
        lines.append("VIOLATION property=%s replay=%s" % (prop, replay))
    elif hard:
        verdict = 1
        os.makedirs(rdir, exist_ok=True)
        replay = "%s/%s.txt" % (rdir, prop)
        with open(replay, "w") as f:
            f.write("property: %s\nno failing input found; failed obligations:\n" % prop)
            for n, msgs in hard.items():
                f.write("\n== %s\n%s\n" % (n, "\n".join(msgs[:4])))
        lines.append("failed obligations in: " + ", ".join(hard))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay))

    # ---- evidence
    ev_runs = [r for r in runs if "evaluations" in r]
    proved = []
    if pr.get("available"):
        proved = [n for n in mine if n not in failed and n not in undecided and not fmap[n]["external"] and not fmap[n]["trusted"]]
    obl, dis, smt_us = 0, 0, 0
    names = set()
    if pr.get("available"):
        for b in pr["breakdown"]:
            names.add(b["function"])
    n_obl = len(mine) + len(lem)
    n_dis = len(proved) + len([l for l in lem if "prelude::" + l not in pr.get("failed", {}) and "prelude::" + l not in pr.get("undecided", {})])
    level = cfg["level"]
    dep = pr.get("dep") or {"ok": False, "why": "not run"}
    assum = list(cfg.get("assumptions", [])) + ASSUMPTIONS
    cov = {
        "obligations": n_obl, "discharged": n_dis,
        "checker_cmd": "verus %s --multiple-errors 4 --rlimit 40 (generated by vp-extract from the macro-expanded /repo on this run)" % "build/run-*/out.rs",
        "trusted_base": trusted_base(dep["ok"]),
        "functions_under_contract": mine, "lemmas": lem, "functions_proved": proved,
        "asn1_rs_contracts": ({"discharged_from_the_source_of_asn1_rs": dep["contracts_discharged"], "asn1_rs_functions_proved": len(dep["functions"]), "functions": dep["functions"],
                               "units_verified": dep["verified"], "solver_ms": dep["smt_ms"]} if dep["ok"] else "assumed on this run: " + dep["why"]),
        "bounded_stand_in": cfg.get("bounded", []), "lost_or_undecided": lost + ["%s: undecided" % n for n in undecided],
        "back_end": "Verus %s / Z3" % pr.get("version"), "verus_units_verified": (pr.get("results") or {}).get("verified"),
        "verus_units_failed": (pr.get("results") or {}).get("errors"), "solver_ms": pr.get("smt_ms"), "verus_wall_ms": pr.get("total_ms"),
        "evaluations": sum(r.get("evaluations", 0) for r in ev_runs), "distinct_nontrivial": sum(r.get("distinct_nontrivial", 0) for r in ev_runs),
        "fixed_corpus": sum(r.get("fixed_corpus", 0) for r in ev_runs),
        "rule": "conformance run of the real compiled crate against an independent oracle (replay/src/oracle.rs): fixed corpus of short inputs, then generated encodings and mutations; a case is non-trivial when the parser under test accepted it, or for the object properties when the object has the queried type; distinct by input (and auxiliary seed where the case is built from it)",
        "samples": [s for r in ev_runs for s in r.get("samples", [])][:6] or ["(none)"],
    }
    if can is not None:
        cov["vacuity_canary"] = can
    if lost or undecided:
        assum.append("on this run the following were NOT proved and only covered by the bounded conformance run: " + "; ".join(cov["lost_or_undecided"]))
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assum,
               "wall_s": round(time.time() - T0, 2), "violations": 1 if verdict else 0}, open("%s/evidence/%s.json" % (V, prop), "w"), indent=1)

    for l in open(V + "/known_findings.txt"):
        m = re.match(r"KNOWN-FINDING: property=(\w+) (.*)", l)
        if m and m.group(1) == prop and verdict == 0:
            print(l.strip())
    print("%s: %d functions under contract, %d/%d obligation groups discharged, %d lemmas; bounded run %d cases; %.1f s" % (
        prop, len(mine), n_dis, n_obl, len(lem), cov["evaluations"], time.time() - T0))
    if can is not None:
        vac = [n for k in ("entry", "end") for n in can.get(k, [])]
        print("vacuity canary: %s" % (can.get("error") or "%d functions and lemmas refute `false` at entry, %d functions at the end; not refuted: %s" % (
            can["n_entry"], can["n_end"], ", ".join(vac) or "none")))
    if can is not None and "asn1_rs" in can:
        c2 = can["asn1_rs"]
        print("vacuity canary, asn1-rs: %s" % (c2.get("error") or "%d / %d; not refuted: %s" % (c2["n_entry"], c2["n_end"], ", ".join(c2["entry"] + c2["end"]) or "none")))
    if not dep["ok"]:
        print("note: the contracts of asn1-rs were assumed on this run: " + dep["why"][:300])
    for l in lost[:10]:
        print("note: not proved on this run (bounded run only): " + l)
    for n in undecided:
        print("note: undecided: " + n)
    for l in lines:
        print(l)
    return verdict


TOTAL = re.compile("precondition not satisfied|arithmetic|overflow|division|divis|decreases|termination|index|panic|unreachable|rlimit|resource limit")
ASSUMPTIONS = [
    "the extraction rules T1..Tn of DESIGN.md preserve the meaning of the functions (checked against the compiled crate only by the bounded run)",
    "the assumed contracts of the prelude (everything listed in trusted_base) describe asn1-rs 0.7.1, nom 7, cookie-factory and core/alloc",
    "usize is 64 bits wide; memory allocation does not fail; stack use is bounded by the depth limit but not measured",
]


def body_of(work, f):
    lines = open(work + "/out.rs").read().split("\n")
    return "\n".join(lines[f["start"] - 1:f["end"]])


def trusted_base(dep=False):
    """mechanical scan: every external_body / axiom / assume / uninterp in prelude and contracts (dep: less those discharged from asn1-rs)"""
    out = []
    text = dep_swap(prelude_text())[0] + prelude_text("verus_dep") if dep else prelude_text()
    mod, pend = [], False
    impl = ""
    for line in text.split("\n"):
        m = re.match(r"^pub mod (\w+)", line)
        if m:
            mod = [m.group(1)]
        m = re.match(r"\s*(?:pub )?(?:impl(?:<[^>]*>)?|trait) ?(.*?)\s*\{", line)
        if m and not line.startswith("    "):
            impl = m.group(1)[:60]
        elif re.match(r"^(pub )?(open |broadcast |uninterp )?(fn|proof|spec|axiom|struct|enum)", line):
            impl = ""
        if "external_body" in line:
            pend = True
        for m in re.finditer(r"\b(axiom fn|uninterp spec fn) (\w+)", line):
            out.append("%s::%s (%s)" % ("::".join(mod), m.group(2), m.group(1)))
        m = re.search(r"\bassume_specification(?:<.*?>)? ?\[(.*?)\] ?\(", line)
        if m:
            out.append("%s: assume_specification %s" % ("::".join(mod), m.group(1)))
        if pend:
            m = re.search(r"\b(?:fn|struct) (\w+)", line)
            if m:
                out.append("%s::%s%s (assumed contract)" % ("::".join(mod), impl + "::" if impl and line.startswith(" ") else "", m.group(1)))
                pend = False
        if re.search(r"\b(assume|admit)\(", line):
            out.append("assume in " + line.strip()[:80])
    for fn in sorted(os.listdir(V + "/contracts")) + ["../contracts_dep/" + x for x in sorted(os.listdir(V + "/contracts_dep"))]:
        if fn.endswith(".vspec"):
            for line in open(V + "/contracts/" + fn):
                if re.search(r"\b(assume|admit)\(", line) or line.strip() == "trusted":
                    out.append("%s: %s" % (fn, line.strip()[:80]))
    return out


if __name__ == "__main__":
    if sys.argv[1] == "--replay-oid":
        sys.exit(oidrun.replay(sys.modules[__name__], sys.argv[2]))
    if sys.argv[1] == "--build":
        os.makedirs(B, exist_ok=True)
        w = tempfile.mkdtemp(prefix="run-", dir=B)
        try:
            with cf.ThreadPoolExecutor(4) as ex:
                rs = [ex.submit(build_extract), ex.submit(build_replay), ex.submit(expand, w), ex.submit(oidrun.build, sys.modules[__name__])]
                bad = [r.result() for r in rs if r.result()[0] != 0]
        finally:
            shutil.rmtree(w, ignore_errors=True)
        for rc, e in bad:
            print(e[-2000:])
        sys.exit(1 if bad else 0)
    main()
