#!/usr/bin/env python3
"""Fills the tables of DESIGN.md from props.py, properties.jsonl, design_rows.py and seeded/."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "tools")]
import props
from design_rows import ROWS
P = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
COST = json.load(open(os.path.join(V, "tools", "cost.json"))) if os.path.exists(os.path.join(V, "tools", "cost.json")) else {}
out = []
for p in P:
    i = p["id"]
    spec, drive = ROWS[i]
    out.append("**%s %s.** *Specified:* %s. *Decided by:* %s. *Bounds:* %s. *Cost:* %s. *Beyond the tests:* %s\n" % (
        i, p["title"], spec, drive, props.PROPS[i]["note"], "about %s s quick" % COST[i] if i in COST else "under a minute quick",
        p["why_tests_cant"]))
table = "\n".join(out)
caught = {}
f = os.path.join(V, "tools", "caught.txt")
if os.path.exists(f):
    for l in open(f):
        w = l.split(None, 2)
        if len(w) == 3: caught[w[0]] = (w[1], w[2].strip())
rows = ["| planted bug | what it needs | reported by |", "|---|---|---|"]
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
    i = os.path.basename(d)
    m = json.load(open(os.path.join(d, "meta.json")))
    rows.append("| %s | %s | %s |" % (i, m["needs"], " (".join(caught[i]) + ")" if i in caught else "-"))
def fill(s, tag, text):
    return re.sub(r"<!-- %s -->.*?<!-- /%s -->" % (tag, tag), lambda _: "<!-- %s -->\n%s\n<!-- /%s -->" % (tag, text, tag), s, flags=re.S)
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
s = fill(s, "properties", table)
s = fill(s, "seeded", "\n".join(rows))
open(p, "w").write(s)
