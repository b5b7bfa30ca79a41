#!/usr/bin/env python3
"""Rewrites the "fixed" list of known-findings.json from the fix: commits of /repo (run by hand, never by a check)."""
import json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIP = {"bdcc787"}  # reverted
# first commit of every block -> property
FROM = {"cd9e333": "C01", "7df66e8": "C02", "fed169a": "C03", "a008e45": "C05", "998eaa9": "C04", "6e2a16a": "C05", "c4710f8": "C14", "3577d42": "C06",
        "de1b2e3": "C07", "27dcdbd": "C08", "fbcd864": "C09", "1707531": "C12", "5d9468a": "C10", "eecc33d": "C11", "96280e8": "C10", "13b1b01": "C11",
        "4a84869": "C18", "5b71527": "C17", "8c9e612": "C15", "ac0b559": "C16", "53b07e5": "C02", "f5632ff": "C19", "ba2f521": "C19", "a3065f7": "C09", "9d38ec5": "C11", "af57c98": "C02",
        "abab290": "C01", "ff0ff4f": "C01"}
WORDS = [(r"proof|certif", "C13")]
out, cur = [], None
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "--grep", "^fix:"], stdout=subprocess.PIPE, text=True, check=True).stdout
for line in log.splitlines():
    h, s = line.split(" ", 1)
    h = h[:7]
    cur = FROM.get(h, cur)
    if h in SKIP:
        continue
    p = next((q for w, q in WORDS if re.search(w, s) and h not in FROM), cur)
    out.append(f"fixed: property={p} {h} {s[5:]}")
f = os.path.join(V, "known-findings.json")
d = json.load(open(f))
d["fixed"] = out
json.dump(d, open(f, "w"), indent=1)
