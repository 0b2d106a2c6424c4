"""Bounded conformance run for C21: the real macro encode_oid! of /repo/der-oid-macro, expanded by rustc, against base-128 arithmetic."""
import json, os, random, subprocess


def sub(n):
    out = [n & 0x7F]
    n >>= 7
    while n:
        out.insert(0, (n & 0x7F) | 0x80)
        n >>= 7
    return out


def want(rel, c):
    """the contents octets X.690 8.19 / 8.20 gives; None: there are none (the macro must refuse); the bool: refusing is allowed too"""
    if rel:
        return [b for x in c for b in sub(x)], False
    if c == [0]:
        return [0], False
    if len(c) < 2 or c[0] > 2:
        return None, True
    if c[1] >= 40:
        return (None if c[0] < 2 else sub(80 + c[1]) + [b for x in c[2:] for b in sub(x)]), True
    return [40 * c[0] + c[1]] + [b for x in c[2:] for b in sub(x)], False


def text(rel, c):
    return ("rel " if rel else "") + ".".join(map(str, c))


def cases(seed, n):
    edge = [0, 1, 2, 126, 127, 128, 129, 255, 256, 16383, 16384, 16385, 65535, 65536, 2097151, 2097152]
    for k in range(1, 140):
        edge += [(1 << k) - 1, 1 << k, (1 << k) + 1]
    out = []
    for v in edge:
        out += [(True, [v]), (True, [v, 5]), (True, [7, v]), (False, [1, 2, v]), (False, [2, 5, v, 300])]
    out += [(False, [a, b]) for a in range(3) for b in range(40)] + [(False, [a, b, 4]) for a in range(3) for b in range(40)]
    out += [(False, [0])] + [(True, [a, b]) for a in (0, 39, 40, 127, 128) for b in (0, 39, 40, 300)]
    fixed = len(out)
    r = random.Random(seed)
    for _ in range(n):
        k = r.choice([1, 1, 2, 3, 4, 8])
        c = [r.getrandbits(r.choice([3, 7, 8, 14, 15, 16, 21, 24, 32, 49, 56, 63, 64, 65, 112, 128, 200, r.randrange(1, 420)])) for _ in range(k)]
        out.append((True, c) if r.random() < 0.5 else (False, [r.randrange(3), r.randrange(40)] + c))
    return out, fixed


REFUSE = [[], [1], [2], [5], [3, 1], [3, 0, 1], [4, 4], [5, 39], [6, 15], [6, 16], [6, 39], [6, 39, 1], [7, 1], [8, 0], [40, 1], [255, 1], [256, 1], [1 << 64, 1], [0, 40], [0, 41], [1, 40], [1, 47, 3],
          [0, 255], [0, 256], [1, 1 << 70], [2, 40], [2, 47], [2, 48], [2, 100], [2, 175], [2, 176], [2, 999, 3], [2, 256]]


def build(check, profiles=("debug", "release")):
    for p in profiles:
        a = ["cargo", "build", "--offline", "--manifest-path", check.REPO + "/der-oid-macro/Cargo.toml", "--target-dir", check.B + "/oid"]
        rc, o, e = check.run(a + (["--release"] if p == "release" else []))
        if rc != 0:
            return rc, e
    return 0, ""


class Run:
    def __init__(self, check, work, profile):
        self.work, self.profile = work, profile
        rc, e = build(check, (profile,))
        if rc != 0:
            raise RuntimeError(e[-2000:])
        self.so = "%s/oid/%s/libder_oid_macro.so" % (check.B, profile)
        self.check = check
        self.n = 0

    def rustc(self, cs, timeout):
        """expand the cases; ({index: message} of those that stop the compilation, {index: bytes} of the others) or None: no answer in time"""
        self.n += 1
        src = "%s/oid%d.rs" % (self.work, self.n)
        with open(src, "w") as f:
            f.write("static T: &[&[u8]] = &[\n")
            for rel, c in cs:
                f.write("&der_oid_macro::encode_oid!(%s),\n" % text(rel, c))
            f.write("];\nfn main() { for t in T { println!(\"{:?}\", t); } }\n")
        exe = src[:-3] + ".exe"
        rc, o, e = self.check.run(["rustc", "--edition", "2018", "-A", "warnings", "--extern", "der_oid_macro=" + self.so, "--error-format=json", "-o", exe, src], timeout=timeout, cwd=self.work)
        if rc == -999:
            return None
        bad = {}
        if rc != 0:
            for l in e.splitlines():
                if l.startswith("{"):
                    d = json.loads(l)
                    for s in d.get("spans", []):
                        if d.get("level") == "error":
                            x = s
                            while x.get("expansion") and not x["file_name"].endswith(os.path.basename(src)):
                                x = x["expansion"]["span"]
                            k = x["line_start"] - 2
                            if 0 <= k < len(cs):
                                bad.setdefault(k, (d["message"] + " " + " ".join(c["message"] for c in d.get("children", [])))[:300])
            if not bad:
                raise RuntimeError("rustc: " + e[-800:])
            return bad, None
        rc, o, e = self.check.run([exe], timeout=60)
        if rc != 0:
            raise RuntimeError("generated program: %d %s" % (rc, e[-300:]))
        return {}, [json.loads(l) for l in o.splitlines()]

    def hang(self, cs):
        while len(cs) > 1:
            h = len(cs) // 2
            cs = cs[:h] if self.rustc(cs[:h], 20) is None else cs[h:]
        return cs[0] if self.rustc(cs, 20) is None else None


def one(profile, case):
    rel, c = case
    return "%s %s" % (profile, text(rel, c))


def fail(profile, case, msg, **kw):
    return {"ok": False, "case": one(profile, case), "message": "encode_oid!(%s), macro built with profile %s: %s" % (text(*case), profile, msg), **kw}


def decide(r, cs):
    """None or a failure"""
    res = r.rustc(cs, 120)
    if res is None:
        c = r.hang(cs)
        return fail(r.profile, c, "the expansion does not end within 20 s") if c else None
    bad, got = res
    if bad:
        must = [k for k in bad if not want(*cs[k])[1]]
        if must:
            return fail(r.profile, cs[must[0]], "stops the compilation (%s), but its encoding is %r" % (bad[must[0]], want(*cs[must[0]])[0]))
        rest = [c for k, c in enumerate(cs) if k not in bad]
        return decide(r, rest) if rest else None
    for c, g in zip(cs, got):
        w = want(*c)[0]
        if g != w:
            return fail(r.profile, c, "gives %r, %s" % (g, "X.690 gives %r" % w if w is not None else "but there is no such object identifier: it should stop the compilation"))
    return None


def parse(t):
    profile, _, s = t.partition(" ")
    rel = s.startswith("rel ")
    s = s[4:] if rel else s
    return profile, (rel, [int(x) for x in s.split(".")] if s else [])


def harness(check, seed, ms, work, tag):
    d = work + "/o" + tag
    os.makedirs(d, exist_ok=True)
    cs, fixed = cases(seed, min(ms // 4, 20000))
    stat = {"evaluations": 0, "distinct_nontrivial": 0, "fixed_corpus": 0, "samples": [text(*c) for c in cs[-4:]]}
    try:
        for profile in ("debug", "release"):
            r = Run(check, d, profile)
            for k in range(0, len(cs), 4000):
                f = decide(r, cs[k:k + 4000])
                if f:
                    return {**f, **stat}
            f = decide(r, [(False, c) for c in REFUSE])
            if f:
                return {**f, **stat}
            stat["evaluations"] += len(cs) + len(REFUSE)
            stat["distinct_nontrivial"] += len({text(*c) for c in cs})
            stat["fixed_corpus"] += fixed + len(REFUSE)
    except RuntimeError as e:
        return {"ok": None, "message": str(e), **stat}
    return {"ok": True, **stat}


def replay(check, path):
    import tempfile, shutil
    t = next(l[6:].rstrip("\n") for l in open(path) if l.startswith("case: "))
    profile, case = parse(t)
    w = tempfile.mkdtemp(dir=check.B)
    try:
        f = decide(Run(check, w, profile), [case])
    finally:
        shutil.rmtree(w)
    print(f["message"] if f else "does not fail")
    return 3 if f else 0
