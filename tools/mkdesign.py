#!/usr/bin/env python3
"""Rebuilds DESIGN.md: head and tail are text, section 2 and 3 come from properties.jsonl, props.json, seeded/."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open(os.path.join(here, "tools", "props.json")))
import re
src = open(os.path.join(here, "tools", "mkmanifest.py")).read()
out = [open(os.path.join(here, "tools", "design_head.md")).read().rstrip() + "\n"]
for l in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(l); i = p["id"]
    out.append("### %s %s\n" % (i, p.get("title", "")))
    if i in T:
        t = T[i]
        out.append("* Decided by: %s." % t.get("technique", "symbolic execution (symla), exact reals").rstrip("."))
        if t.get("how"): out.append("* How: " + t["how"])
        out.append("* Code executed: " + ", ".join("`%s`" % f for f in t["functions"]))
        out.append("* Bounds: " + t["bounds"] + ".")
        for a in t.get("assumptions", []): out.append("* Outside / assumed: " + a)
        ev = os.path.join(here, "tools", "cost.json")
        if os.path.exists(ev):
            c = json.load(open(ev)).get(i)
            if c: out.append("* Cost (8 cores): " + c)
    else:
        out.append("* Not applicable: " + eval(re.search(r"NA = (\{.*?\n\})", src, re.S).group(1)).get(i, ""))
    out.append("")
out.append(open(os.path.join(here, "tools", "design_tail.md")).read())
sd = os.path.join(here, "seeded")
out.append("| change | property | what it needs | caught by |\n|---|---|---|---|")
caught = json.load(open(os.path.join(here, "tools", "caught.json")))
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    out.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], caught.get(d, "check " + m["property"])))
open(os.path.join(here, "DESIGN.md"), "w").write("\n".join(out) + "\n")
