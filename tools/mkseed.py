#!/usr/bin/env python3
"""mkseed.py SEEDS.py [id...]: make the planted bugs described in SEEDS.py (list SEEDS of dicts id, property, edits
[(file, old, new)], needs, breaks, demo) in a scratch copy of /repo, confirm each (builds, stable tests pass, demo passes
without and fails with the change) and write /verif/seeded/<id>/."""
import json, os, shutil, subprocess, sys, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0 when the property holds on this input, non-zero otherwise; run with cwd /repo
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
w="$(mktemp -d)"
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
cp "$here/main.rs" "$w/src/main.rs"
cat > "$w/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
der-parser = { path = "$repo", features = ["bigint", "serialize", "as_bitvec"] }
asn1-rs = "0.7"
nom = "7"
cookie-factory = "0.3"
num-bigint = "0.4"
[profile.dev]
debug = false
EOF
cd "$w" && timeout 250 cargo run -q --offline --target-dir "$w/t"
'''
DEMO_OID = '''#!/bin/bash
# exit 0 when the property holds on this input, non-zero otherwise; run with cwd /repo
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
w="$(mktemp -d)"
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
cp "$here/main.rs" "$w/src/main.rs"
cat > "$w/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
der-oid-macro = { path = "$repo/der-oid-macro" }
[profile.dev]
debug = false
EOF
cd "$w" && timeout 250 cargo run -q --offline --target-dir "$w/t"
'''
def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def tests(repo):
    # the stable tests, in the scratch copy
    env = dict(os.environ, CARGO_TARGET_DIR=repo + "/target")
    r = sh("cargo test --workspace --all-features --offline 2>&1 | grep -E '^test result|FAILED|^error|panicked' | head -40", cwd=repo, env=env)
    o = r.stdout.decode()
    return ("FAILED" not in o and "\nerror" not in "\n" + o and "test result: ok" in o), o
def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    only = set(sys.argv[2:])
    wt = "/tmp/seedwt"
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", wt])
    for s in seeds:
        if only and s["id"] not in only: continue
        sh("git checkout -q -- .", cwd=wt)
        for f, old, new in s["edits"]:
            t = open(wt + "/" + f).read()
            if t.count(old) != 1:
                print(s["id"], "EDIT does not match once:", t.count(old), f); break
            open(wt + "/" + f, "w").write(t.replace(old, new))
        else:
            d = V + "/seeded/" + s["id"]
            shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
            open(d + "/patch.diff", "wb").write(sh(["git", "diff"], cwd=wt).stdout)
            open(d + "/demo.sh", "w").write(DEMO_OID if s["property"] == "C21" else DEMO); os.chmod(d + "/demo.sh", 0o755)
            open(d + "/main.rs", "w").write(s["demo"])
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            ok, o = tests(wt)
            bad = sh(["bash", d + "/demo.sh"], cwd=wt)
            good = sh(["bash", d + "/demo.sh"], cwd="/repo")
            keep = ok and bad.returncode != 0 and good.returncode == 0
            print(s["id"], s["property"], "tests", ok, "demo(bug)", bad.returncode, "demo(good)", good.returncode, "KEEP" if keep else "REJECT")
            if not ok: print(o)
            if b"could not compile" in bad.stdout: print(bad.stdout.decode()[-1500:]); keep = False
            if good.returncode: print(good.stdout.decode()[-1500:])
            if not keep: shutil.rmtree(d)
            sys.stdout.flush()
    shutil.rmtree(wt, ignore_errors=True)
main()
