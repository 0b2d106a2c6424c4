#!/bin/bash
# record the text hashes of the functions under contract (contracts/baseline.json) from /repo's current tree
set -e
cd "$(dirname "$0")/.."
w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
python3 - "$w" <<'P'
import sys, json; sys.path.insert(0, ".")
w = sys.argv[1]; sys.argv = ["x"]
import check
check.build_extract(); check.expand(w)
open(w + "/prelude.rs", "w").write(check.prelude_text())
rc, o, e = check.run([check.B + "/extract/debug/vp-extract", w + "/expanded.rs", check.V + "/contracts", w + "/prelude.rs", w + "/out.rs", w + "/map.json"])
assert rc == 0, e
m = json.load(open(w + "/map.json"))
json.dump({f["fn"]: [f["hash"], f["loops"]] for f in m["functions"]}, open("contracts/baseline.json", "w"), indent=0, sort_keys=True)
P
