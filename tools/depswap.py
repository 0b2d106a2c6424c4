#!/usr/bin/env python3
"""depswap.py IN OUT: the prelude with its assumed asn1-rs bodies replaced by calls of the extracted functions.

`{ BODY /*dep: NEW */ }` becomes `{ NEW }`, and the `external_body` attribute of that function is taken away.
"""
import re, sys

PAT = re.compile(r"/\*dep: (.*?)\*/", re.S)


def swap(text):
    n = 0
    while True:
        m = PAT.search(text)
        if not m:
            return text, n
        # the opening brace of the body the marker stands in
        k, d = m.start() - 1, 0
        while True:
            c = text[k]
            if c == "}":
                d += 1
            elif c == "{":
                if d == 0:
                    break
                d -= 1
            k -= 1
        head, body_end = text[:k], m.end()
        a = head.rfind("#[verifier::external_body]")
        if a >= 0 and len(re.findall(r"\bfn \w", head[a:])) == 1:
            head = head[:a] + head[a + len("#[verifier::external_body]"):]
        text = head + "{ " + m.group(1) + text[body_end:]
        n += 1


if __name__ == "__main__":
    t, n = swap(open(sys.argv[1]).read())
    open(sys.argv[2], "w").write(t)
    print("swapped", n)
