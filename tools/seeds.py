"""rewrites the table of planted bugs in DESIGN.md.  usage: seeds.py [DIR with <id>.<prop>.chk outputs]
The results of the checks are kept in tools/seed_results.json."""
import glob
import json
import os
import re
import sys

os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
R = "tools/seed_results.json"
res = json.load(open(R)) if os.path.exists(R) else {}
for f in glob.glob(sys.argv[1] + "/*.chk") if len(sys.argv) > 1 else []:
    id, prop, _ = os.path.basename(f).rsplit(".", 2)
    t = open(f).read()
    m = re.search(r"(\d+)/(\d+) units proved", t)
    v = re.search(rf"^VIOLATION property={prop}.*", t, re.M)
    res.setdefault(id, {})[prop] = ("missed" if not v else "failed obligations, no failing input" if "no-failing" in v.group(0) else "failing input" + (f", {int(m.group(2)) - int(m.group(1))} units not proved" if m and m.group(1) != m.group(2) else ""))
ids = sorted(os.path.basename(d) for d in glob.glob("seeded/*"))
res = {k: res[k] for k in ids if k in res}
json.dump(res, open(R, "w"), indent=1, sort_keys=True)
out = "| planted bug | property | breaks | caught by |\n|---|---|---|---|\n"
for i in ids:
    m = json.load(open(f"seeded/{i}/meta.json"))
    out += f"| {i} | {m['property']} | {m['what_it_breaks']} | " + "; ".join(f"{p}: {r}" for p, r in sorted(res.get(i, {}).items())) + " |\n"
B, E = "<!-- seeds -->\n", "<!-- end of seeds -->"
s = open("DESIGN.md").read()
open("DESIGN.md", "w").write(s[:s.index(B) + len(B)] + out + s[s.index(E):])
