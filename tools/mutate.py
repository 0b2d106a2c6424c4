#!/usr/bin/env python3
"""mutate.py gen OUT.json | run IN.json OUT.jsonl [workers]

A mutation campaign over /repo's sources in scratch copies under /tmp/mw: every single-token mutant that builds and passes the
existing tests is put through the proof and the bounded run.  What neither catches is listed for triage by hand.
"""
import concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys, threading

FILES = ["ber/ber.rs", "ber/integer.rs", "ber/multi.rs", "ber/parser.rs", "ber/serialize.rs", "ber/tagged.rs", "ber/visit.rs", "ber/visit_mut.rs",
         "ber/wrap_any.rs", "der/multi.rs", "der/parser.rs", "der/tagged.rs", "error.rs"]
W = "/tmp/mw"


def gen(out):
    rnd, muts = random.Random(7), []
    tags = ["Boolean", "Integer", "BitString", "OctetString", "Null", "Oid", "Enumerated", "Utf8String", "RelativeOid", "Sequence", "Set", "NumericString",
            "PrintableString", "T61String", "VideotexString", "Ia5String", "UtcTime", "GeneralizedTime", "GraphicString", "VisibleString", "GeneralString",
            "UniversalString", "BmpString", "ObjectDescriptor", "EndOfContent"]
    errs = ["BerTypeError", "BerValueError", "InvalidTag", "InvalidLength", "Unsupported", "ConstructExpected", "ConstructUnexpected", "IntegerTooLarge", "IntegerNegative",
            "BerMaxDepth", "InvalidClass", "IndefiniteLengthUnexpected"]
    for f in FILES:
        lines = open("/repo/src/" + f).read().split("\n")
        test = False
        for n, l in enumerate(lines):
            if "#[cfg(test)]" in l:
                test = True
            if test or re.match(r"\s*(//|use |pub use|#\[|\*|///)", l):
                continue
            code = l.split("//")[0]

            def add(a, b, new, kind):
                muts.append({"file": f, "line": n, "old": l, "new": l[:a] + new + l[b:], "kind": kind})
            for pat, rep in ((" == ", " != "), (" != ", " == "), (" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" && ", " || "), (" || ", " && "),
                             (" + ", " - "), (" - ", " + "), (" << ", " >> "), (" >> ", " << "), (" - 1", ""), (" + 1", ""), ("true", "false"), ("false", "true"), (" | ", " & "),
                             ("is_some()", "is_none()"), ("is_empty()", "is_empty() == false"), ("is_constructed()", "is_primitive()"), ("is_primitive()", "is_constructed()")):
                for m in re.finditer(re.escape(pat), code):
                    if pat in (" < ", " > ") and re.search(r"->|fn |impl|=>", code):
                        continue
                    add(m.start(), m.end(), rep, "op")
            for m in re.finditer(r"(?<![\w.'])(0x[0-9a-fA-F_]+|\d+)(?![\w.])", code):
                v = int(m.group(1).replace("_", ""), 0)
                for k in {v + 1, v - 1} - {-1}:
                    add(m.start(), m.end(), str(k), "int")
            for m in re.finditer(r"Tag::(\w+)", code):
                if m.group(1) in tags:
                    for t in rnd.sample([t for t in tags if t != m.group(1)], 1):
                        add(m.start(1), m.end(1), t, "tag")
            for m in re.finditer(r"(?:Ber|Der)?Error::(\w+)", code):
                if m.group(1) in errs:
                    add(m.start(1), m.end(1), rnd.choice([t for t in errs if t != m.group(1)]), "err")
            for m in re.finditer(r"Class::(Universal|ContextSpecific|Application|Private)", code):
                add(m.start(1), m.end(1), rnd.choice([t for t in ("Universal", "ContextSpecific", "Application", "Private") if t != m.group(1)]), "class")
            m = re.match(r"(\s*)(?!let |return|use |pub |fn |\}|\{|\.|\)|type |const )(\S.*;)\s*$", code)
            if m:
                add(m.start(2), m.end(2), "", "del")
            m = re.match(r"\s*(?:\} else )?if (?!let)(.*) \{\s*$", code)
            if m:
                for c in ("true", "false"):
                    add(m.start(1), m.end(1), c, "if")
            for m in re.finditer(r"if !(?=[\w(])", code):
                add(m.start(), m.end(), "if ", "not")
            for m in re.finditer(r"\b(rem|i|input|data|bytes)\b(?=[,)])", code):
                for o in {"rem", "i", "data"} - {m.group(1)}:
                    add(m.start(), m.end(), o, "var")
            for m in re.finditer(r"\bBerObjectContent::(\w+)(?=\()", code):
                o = {"Sequence": "Set", "Set": "Sequence", "UTCTime": "GeneralizedTime", "GeneralizedTime": "UTCTime", "OID": "RelativeOID", "RelativeOID": "OID", "Integer": "OctetString",
                     "OctetString": "Integer", "NumericString": "VisibleString", "VisibleString": "NumericString", "PrintableString": "IA5String", "IA5String": "PrintableString",
                     "T61String": "VideotexString", "VideotexString": "T61String", "BmpString": "UniversalString", "UniversalString": "BmpString", "UTF8String": "GeneralString",
                     "GeneralString": "GraphicString", "GraphicString": "GeneralString", "ObjectDescriptor": "UTF8String"}.get(m.group(1))
                if o:
                    add(m.start(1), m.end(1), o, "variant")
    seen, res = set(), []
    for m in muts:
        k = (m["file"], m["line"], m["new"])
        if k not in seen and m["new"] != m["old"]:
            seen.add(k)
            m["id"] = len(res)
            res.append(m)
    json.dump(res, open(out, "w"))
    print(len(res), "mutants")


ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_TERM_COLOR="never", CARGO_BUILD_JOBS="2", RUSTC_WRAPPER="")


def setup(k):
    d = "%s/%d" % (W, k)
    if os.path.exists(d):
        return
    os.makedirs(d)
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    subprocess.run("mkdir -p %s/verif && cd /verif && cp -a check.py contracts contracts_dep verus verus_dep tools extract replay build known_findings.txt %s/verif/" % (d, d), shell=True, check=True)
    subprocess.run("sed -i 's#\"/repo\"#\"%s/repo\"#' %s/verif/check.py %s/verif/replay/Cargo.toml" % (d, d, d), shell=True, check=True)


def sh(cmd, t, cwd=None, env=ENV):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, shell=isinstance(cmd, str), start_new_session=True)
        return p.returncode, p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        return -999, "timeout"


def one(k, m, phase):
    d = "%s/%d" % (W, k)
    p = "%s/repo/src/%s" % (d, m["file"])
    src = open("/repo/src/" + m["file"]).read()
    lines = src.split("\n")
    assert lines[m["line"]] == m["old"]
    lines[m["line"]] = m["new"]
    open(p, "w").write("\n".join(lines))
    try:
        r = dict(m)
        if phase == "test":
            rc, o = sh(["timeout", "100", "cargo", "test", "--all-features", "--offline", "-q", "--lib", "--tests", "--", "--test-threads", "2"], 130, d + "/repo")
            r["status"] = "survives" if rc == 0 else ("nobuild" if "could not compile" in o else "killed")
        else:
            rc, o = sh([sys.executable, d + "/verif/tools/mutcheck.py"], 900, d + "/verif")
            try:
                r.update(json.loads(o.strip().splitlines()[-1]))
            except Exception:
                r["error"] = o[-500:]
        return r
    finally:
        open(p, "w").write(src)


def campaign(inp, out, phase, workers):
    muts = json.load(open(inp)) if inp.endswith(".json") else [json.loads(l) for l in open(inp)]
    if phase == "check":
        muts = [m for m in muts if m.get("status") == "survives"]
    done = {json.loads(l)["id"] for l in open(out)} if os.path.exists(out) else set()
    todo = [m for m in muts if m["id"] not in done]
    free, lock = list(range(workers)), threading.Lock()
    for k in free:
        setup(k)

    def work(m):
        with lock:
            k = free.pop()
        try:
            r = one(k, m, phase)
        except Exception as e:
            r = dict(m, error=str(e))
        with lock:
            free.append(k)
            open(out, "a").write(json.dumps(r) + "\n")
    with cf.ThreadPoolExecutor(workers) as ex:
        list(ex.map(work, todo))


if __name__ == "__main__":
    if sys.argv[1] == "gen":
        gen(sys.argv[2])
    else:
        campaign(sys.argv[2], sys.argv[3], sys.argv[1], int(sys.argv[4]) if len(sys.argv) > 4 else 4)
