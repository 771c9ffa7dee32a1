#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design.head.md, then tables made from the registered
harnesses, from seeded/ and from tools/caught.json (kept by runseeds.py)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [open(V + "/tools/design.head.md").read().rstrip() + "\n"]
out.append("\n## Bounds as built\n\nQuick tier unless marked T (thorough only; the thorough tier runs both).\n")
reg = {}
for f in sorted(glob.glob(V + "/harness/props/*.json")):
    reg.update(json.load(open(f)))
for p in [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]:
    if p not in reg: continue
    out.append("\n**%s**\n\n" % p)
    for h in reg[p]["harnesses"]:
        out.append("* %s%s.%s: %s\n" % ("T: " if h.get("tier") == "thorough" else "", h["pkg"], h["fn"], h["bounds"]))
    if reg[p].get("assumptions"): out.append("* assumes: %s\n" % "; ".join(reg[p]["assumptions"]))
    if reg[p].get("outside"): out.append("* outside: %s\n" % reg[p]["outside"])
out.append("\n## Planted changes and the checks that catch them\n\n"
  "Made from a property's text and the code; kept whether caught or not (`seeded/`). \"caught by\" is the\n"
  "quick check of the property they break, last run of `tools/runseeds.py`.\n\n| change | property | breaks | caught by |\n|---|---|---|---|\n")
c = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = d.split("/")[-2]
    out.append("| %s | %s | %s | %s |\n" % (i, m["property"], m["what_it_breaks"].replace("|", "/"), c.get(i, "?")))
n = V + "/tools/design.tail.md"
if os.path.exists(n): out.append("\n" + open(n).read())
open(V + "/DESIGN.md", "w").write("".join(out))
