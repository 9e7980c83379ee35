#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
HEAD = "## Planted bugs"
t = open(root + "/DESIGN.md", encoding="utf-8").read().split(HEAD)[0]
notes = json.load(open(root + "/tools/seednotes.json"))
out = [HEAD, "", "Each is written from a property's text (`tools/seeds.py`), kept only after the stable tests passed with it and its demonstration",
       "told it apart (`tools/mkseeds.py`), and run against its property's quick check (`tools/runseeds.sh`). All of those below are caught by",
       "that check. The last column says what had to be strengthened for it.", "",
       "| bug | needs | caught by | first missed |", "|---|---|---|---|"]
for i in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(root + "/seeded/%s/meta.json" % i))
    out.append("| %s | %s | %s | %s |" % (i, m["needs"], notes.get(i, {}).get("caught", m["property"]), notes.get(i, {}).get("note", "")))
open(root + "/DESIGN.md", "w", encoding="utf-8").write(t + "\n".join(out) + "\n")
