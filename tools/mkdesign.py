#!/usr/bin/env python3
# Rewrites the generated part of DESIGN.md (after the marker) from bounds.py, props.py, meta data and seeded/.
import sys, os, json, glob
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")); sys.path.insert(0, ".")
from bounds import B
from props import PROPS
M = "<!-- generated by tools/mkdesign.py -->"
head = open("DESIGN.md").read().split(M)[0]
ti = {}
for l in open("properties.jsonl"):
    d = json.loads(l); ti[d["id"]] = d["title"]
o = [M, ""]
for p in sorted(B):
    b = B[p]; e = [x["name"] + (" (thorough)" if x.get("thorough") else "") for x in PROPS[p]["entries"]]
    o += ["### %s %s" % (p, ti[p]), "", b["how"], "", "* Oracle: %s." % b["oracle"], "* Bounds: %s." % b["bounds"], "* Outside: %s." % b["outside"], "* Entries: %s." % ", ".join(e), ""]
o += ["## Planted bugs and what catches them", "", "| bug | property | caught by | needs |", "|---|---|---|---|"]
cat = json.load(open("tools/caught.json")) if os.path.exists("tools/caught.json") else {}
for f in sorted(glob.glob("seeded/*/meta.json")):
    d = json.load(open(f)); i = os.path.basename(os.path.dirname(f)); o.append("| %s | %s | %s | %s |" % (i, d["property"], cat.get(i, "?"), d["needs"].replace("|", "/").replace("\n", " ")))
open("DESIGN.md", "w").write(head + "\n".join(o) + "\n")
