#!/usr/bin/env python3
"""Writes DESIGN.md."""
import json, os, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = here + "/tools/"
props = [json.loads(l) for l in open(here + "/properties.jsonl") if l.strip()]
specs = json.load(open(here + "/checks.json"))
text = json.load(open(T + "design_props.json"))
out = [open(T + "design_head.md").read()]
for p in props:
    i = p["id"]
    out.append("### %s %s\n\n%s\n\n" % (i, p["title"], text[i]))
    for h in specs[i]["harnesses"]:
        par = ", ".join("%s=%s" % kv for kv in (h.get("quick") or {}).items())
        deep = ", ".join("%s=%s" % kv for kv in (h.get("thorough") or {}).items())
        out.append("* `%s`: %s. Bounds: %s. Budget %ds (thorough %ds)%s.\n" % (h["entry"], h["what"], h["bounds"], h.get("quick_s", 60), h.get("thorough_s", 900),
            ("; parameters " + par + (" / " + deep if deep else "")) if par else ""))
    out.append("\n")
caught = {}
if os.path.exists(T + "seeded.json"):
    caught = json.load(open(T + "seeded.json"))
rows = ["| change | property | needs | caught by |\n|---|---|---|---|\n"]
for d in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    rows.append("| %s | %s | %s | %s |\n" % (n, m["property"], m["needs"], caught.get(n, m["property"])))
out.append(open(T + "design_tail.md").read().replace("SEEDED_TABLE\n", "".join(rows)))
open(here + "/DESIGN.md", "w").write("".join(out))
