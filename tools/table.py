"""Rewrites the table of planted bugs at the end of DESIGN.md from
seeded/*/meta.json and tools/caught.json (id -> checks that catch it)."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(V + "/tools/caught.json"))
s = open(V + "/DESIGN.md").read()
k = s.index("| bug |") if "| bug |" in s else len(s)
t = "| bug | breaks | caught by |\n|---|---|---|\n"
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = f.split("/")[-2]
    m = json.load(open(f))
    t += f"| {i} | {m['what_it_breaks']} (needs {m['needs']}) | {', '.join(c.get(i, ['?']))} |\n"
open(V + "/DESIGN.md", "w").write(s[:k] + t)
