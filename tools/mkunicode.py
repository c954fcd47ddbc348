#!/usr/bin/env python3
"""data/unicode.json from the Unicode character database files that come with
the repository (an own reading of them; the library's tables are not used)."""
import json, re
D = "/repo/gen_unicode_hpp/"
cat, up, lo = {}, {}, {}
first = None
def ranges(s):
    out = []
    for c in sorted(s):
        if out and out[-1][1] == c - 1: out[-1][1] = c
        else: out.append([c, c])
    return out
for l in open(D + "UnicodeData.txt"):
    f = l.rstrip("\n").split(";")
    c = int(f[0], 16)
    if f[1].endswith(", First>"): first = c; continue
    a = first if f[1].endswith(", Last>") else c
    first = None
    for x in range(a, c + 1): cat[x] = f[2]
    if f[12]: up[c] = int(f[12], 16)
    if f[13]: lo[c] = int(f[13], 16)
cats = {}
for c, k in cat.items():
    cats.setdefault(k, set()).add(c)
for k in list(cats): cats.setdefault(k[0], set()).update(cats[k])
cats["LC"] = cats["Lu"] | cats["Ll"] | cats["Lt"]
blocks, scripts = {}, {}
for l in open(D + "Blocks.txt"):
    m = re.match(r"([0-9A-F]+)\.\.([0-9A-F]+);\s*(.*?)\s*$", l)
    if m: blocks[m.group(3)] = [[int(m.group(1), 16), int(m.group(2), 16)]]
for l in open(D + "Scripts.txt"):
    m = re.match(r"([0-9A-F]+)(?:\.\.([0-9A-F]+))?\s*;\s*(\w+)", l)
    if m: scripts.setdefault(m.group(3), set()).update(range(int(m.group(1), 16), int(m.group(2) or m.group(1), 16) + 1))
# <<x, y>>: y folds to x
inv = sorted([u, c] for c, u in up.items() if cat[c] == "Ll") + sorted([l, c] for c, l in lo.items() if cat[c] == "Lu")
inv.sort()
if __name__ == "__main__":
    json.dump({"cat": {k: ranges(v) for k, v in sorted(cats.items())}, "block": blocks, "script": {k: ranges(v) for k, v in sorted(scripts.items())},
               "inv": inv}, open("/verif/data/unicode.json", "w"), separators=(",", ":"))
