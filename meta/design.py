#!/usr/bin/env python3
"""Writes DESIGN.md from its parts, props.py and the planted changes."""
import glob, json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from props import PROPS, NA
from design_props import D
root = os.path.dirname(here)
seeds = {}
for f in sorted(glob.glob(os.path.join(root, "seeded/*/meta.json"))):
    m = json.load(open(f))
    seeds.setdefault(m["property"], []).append(os.path.basename(os.path.dirname(f)))
out = [open(os.path.join(here, "design_head.md")).read()]
for p in PROPS:
    if p["id"] not in NA:
        out.append("**%s %s.** %s\n" % (p["id"], p["title"], D[p["id"]]))
        out.append("Caught: %s.\n\n" % (", ".join("`%s`" % s for s in seeds.get(p["id"], [])) or "none planted"))
out.append("## 3. Not applicable\n\n")
for p in PROPS:
    if p["id"] in NA:
        out.append("**%s %s.** %s\n\n" % (p["id"], p["title"], NA[p["id"]]))
out.append(open(os.path.join(here, "design_tail.md")).read())
open(os.path.join(root, "DESIGN.md"), "w").write("".join(out))
