"""rewrites the per-property part of DESIGN.md from properties.jsonl and the contract modules"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(HERE)
sys.path.insert(0, HERE)
B, E = "<!-- properties: tools/design.py -->\n", "<!-- end of properties -->\n"
s = open("DESIGN.md").read()
old = s[s.index(B) + len(B):s.index(E)]
out = ""
for l in open("properties.jsonl"):
    p = json.loads(l)
    m = importlib.import_module("contracts." + p["id"].lower())
    h = f"### {p['id']} {p['title']}\n\n"
    why = ""
    k = old.find(f"### {p['id']} ")
    if k >= 0:
        why = old[old.index("\n\n", k) + 2:old.index("Units under contract", k)].strip()
    out += h + why + "\n\nUnits under contract (" + str(len(m.UNITS)) + "): " + "; ".join(u.name for u in m.UNITS) + ".\n\nScope: " + m.NOTE + "\n\n"
    if getattr(m, "ASSUMED", None):
        out += "Assumed: " + "; ".join(m.ASSUMED) + ".\n\n"
open("DESIGN.md", "w").write(s[:s.index(B) + len(B)] + out + s[s.index(E):])
