#!/usr/bin/env python3
"""Writes DESIGN.md from meta/design-*.* , the harness and seeded/."""
import glob
import json
import os
import re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def read(*p):
    with open(os.path.join(VERIF, *p)) as f:
        return f.read()


tests = {}
for f in sorted(glob.glob(os.path.join(VERIF, "harness", "*.cpp"))):
    src = read(f)
    for m in re.finditer(r'^#define (\w+) (".*?(?:\\\n.*?)*)\n', read(f), re.M):
        src = re.sub(r'\b%s\b(?= ")' % m[1],
                     lambda _: m[2].replace("\\\n", " "), src)
    for m in re.finditer(r'^(PROPERTY(?:_NOLEAK)?|OUTPUTS)\((C\d\d), (.*?)\)\n',
                         src, re.S | re.M):
        b = re.sub(r'"\s*"', "", " ".join(m[3].split()))
        if m[1] == "OUTPUTS":
            n, what = re.match(r'(\d+), "(.*?)"', b).groups()
            name = "outputs"
            b = what + " given an output that cannot hold the result"
        else:
            name, n, b = re.match(r'(\w+), (\d+), "(.*)"', b).groups()
        tests.setdefault(m[2], []).append((name, int(n) * 4, b))
text = {}
for line in read("meta", "design-text.txt").splitlines():
    if line.strip():
        k, v = line.split(": ", 1)
        text[k] = v
out = [read("meta", "design-head.md")]
for line in read("properties.jsonl").splitlines():
    p = json.loads(line)
    i = p["id"]
    out.append("\n### %s %s\n\n" % (i, p["title"]))
    for name, n, b in tests[i]:
        out.append("* `%s` (%d): %s.\n" % (name, n, b.replace('\\"', '"')))
    out.append("\n" + text[i] + "\n")
fixes = sum(l.startswith("fixed:") for l in
            read("known_findings.txt").splitlines())
out.append(read("meta", "design-tail.md").replace("REPAIRED", str(fixes)))
out.append("| change | caught by | needs |\n|---|---|---|\n")
rows = []
for d in glob.glob(os.path.join(VERIF, "seeded", "*", "meta.json")):
    m = json.load(open(d))
    rows.append((m["property"], os.path.basename(os.path.dirname(d)),
                 m["needs"]))
for p, i, n in sorted(rows):
    out.append("| %s | %s | %s |\n" % (i, p, n.replace("|", "\\|")))
with open(os.path.join(VERIF, "DESIGN.md"), "w") as f:
    f.write("".join(out))
