"""Numbers and words written in the code under test.

They only guide what is generated: some draws take one of them (harness/core/src/rng.rs), those that
bin/dictionary.json does not list more often.  The oracles do not see them.
"""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.realpath(__file__))
BASE = os.path.join(HERE, "dictionary.json")
NUM = r"(?:0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)"
SUFFIX = r"(?:_?(?:[iu](?:8|16|32|64|128|size)|f32|f64))?"


def value(t):
    t = re.sub(r"_?([iu](8|16|32|64|128|size)|f32|f64)$", "", t) if t[:2] != "0x" else re.sub(r"_?[iu](8|16|32|64|128|size)$", "", t)
    t = t.replace("_", "")
    try:
        return int(t, 0) if t[:2] in ("0x", "0b", "0o") else int(t)
    except ValueError:
        return None


def scan(root):
    nums, words = set(), set()
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            if not f.endswith(".rs"):
                continue
            s = open(os.path.join(d, f), encoding="utf-8", errors="replace").read()
            for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', s):
                w = re.sub(r"\\x[0-9a-fA-F]{2}|\\u\{[^}]*\}|\\.", "", m[1])
                w = re.sub(r"\{[^}]*\}", "", w).strip()
                if 1 <= len(w) <= 40 and w.isprintable():
                    words.add(w)
            s = re.sub(r"//[^\n]*", "", s)
            for m in re.finditer(r"b?'(\\?[^'\n]{1,4})'", s):
                if len(m[1]) == 1:
                    nums.add(ord(m[1]))
            s = re.sub(r'"((?:[^"\\]|\\.)*)"', '""', s)
            tok = rf"(?<![\w.])({NUM}{SUFFIX})(?![\w])"
            for m in re.finditer(tok, s):
                v = value(m[1])
                if v is not None:
                    nums.add(v)
            for m in re.finditer(rf"(?<![\w.])({NUM}{SUFFIX})\s*(<<|\*|\+|-)\s*({NUM}{SUFFIX})(?:\s*(\*|\+|-)\s*({NUM}{SUFFIX}))?(?!\w)", s):
                a, b = value(m[1]), value(m[3])
                if a is None or b is None or (m[2] == "<<" and b > 64):
                    continue
                v = {"<<": lambda: a << b, "*": lambda: a * b, "+": lambda: a + b, "-": lambda: a - b}[m[2]]()
                nums.add(v)
                if m[4]:
                    c = value(m[5])
                    if c is not None:
                        nums.add({"*": v * c, "+": v + c, "-": v - c}[m[4]])
    return {n for n in nums if 0 <= n < 1 << 64}, words


def split(root):
    """(common numbers, fresh numbers, common words, fresh words)"""
    nums, words = scan(root)
    try:
        base = json.load(open(BASE))
    except (OSError, ValueError):
        base = {"numbers": [], "words": []}
    bn, bw = set(base["numbers"]), set(base["words"])
    fresh = sorted(nums - bn)[:400]
    return sorted(nums & bn)[:400], fresh, sorted(words & bw)[:200], sorted(words - bw)[:100]


if __name__ == "__main__":
    n, w = scan(sys.argv[1] if len(sys.argv) > 1 else "/repo/src")
    json.dump({"numbers": sorted(n), "words": sorted(w)}, open(BASE, "w"), indent=0)
    print(len(n), len(w))
