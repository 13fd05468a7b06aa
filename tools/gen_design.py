#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.md (prose), properties.jsonl, registry.py and seeded/*/meta.json."""
import json, glob, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from registry import PROPS
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
t = open(os.path.join(H, "tools/design.md")).read()
secs = {}
cur = None
head, tail = t.split("<<PER PROPERTY>>")
body, tail = tail.split("<<END>>")
for line in body.splitlines():
    if line.startswith("## C"):
        cur = line[3:6]
        secs[cur] = []
    elif cur:
        secs[cur].append(line)
out = [head.rstrip(), ""]
for p in props:
    s = PROPS[p["id"]]
    out.append("### %s  %s" % (p["id"], p["title"]))
    out.append("")
    out.append("\n".join(secs.get(p["id"], ["(to do)"])).strip())
    if s.get("runs"):
        r = ", ".join("%s %s / %s" % (n, format(q, ","), format(th, ",")) for n, q, th in s["runs"])
        out.append("*Cases (quick / thorough):* %s%s. *Case:* %s." % (r, "; thorough adds 8 libFuzzer processes of %s runs" % format(s["fuzz"], ",") if s.get("fuzz") else "", s["rule"]))
    else:
        out.append("*Case:* %s." % s["rule"])
    out.append("")
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(H, "seeded/*/meta.json"))):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"].replace("|", "\\|"), m.get("caught_by", m["property"])))
open(os.path.join(H, "DESIGN.md"), "w").write("\n".join(out).rstrip() + "\n\n" + tail.strip().replace("<<TABLE>>", "\n".join(rows)) + "\n")
missing = [p["id"] for p in props if p["id"] not in secs]
print("missing sections:", missing)
