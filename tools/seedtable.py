#!/usr/bin/env python3
# Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.txt ("bug check rc seconds" lines).
import json, glob, os, collections
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
c = collections.defaultdict(dict)
try:
    for l in open(os.path.join(R, "tools/caught.txt")):
        b, i, rc, s = l.split()[:4]; c[b][i] = (rc, s)
except FileNotFoundError: pass
o = ["| planted bug | breaks | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(R, "seeded/*/meta.json"))):
    m = json.load(open(f)); b = os.path.basename(os.path.dirname(f))
    k = ", ".join(f"{i} ({s} s)" for i, (rc, s) in sorted(c[b].items()) if rc == "1")
    miss = ", ".join(i for i, (rc, s) in sorted(c[b].items()) if rc != "1")
    o.append(f"| {b} | {m['what_it_breaks']} | {m['needs']} | {k or '?'}{'; not by ' + miss if miss else ''} |")
p = os.path.join(R, "DESIGN.md"); s = open(p).read()
i = s.index("<!-- seeded:begin -->") + len("<!-- seeded:begin -->\n"); j = s.index("<!-- seeded:end -->")
open(p, "w").write(s[:i] + "\n".join(o) + "\n" + s[j:])
