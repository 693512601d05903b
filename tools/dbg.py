import sys, time, importlib
sys.path.insert(0, "/verif")
from pyvc.engine import Engine
mod = importlib.import_module("contracts." + sys.argv[1].lower())
u = next(u for u in mod.UNITS if sys.argv[2] in u.name)
e = Engine(u.name, time.time() + float(sys.argv[3] if len(sys.argv) > 3 else 60), dict(u.opts, debug=True))
try:
    e.explore(u.fn)
finally:
    for o in e.obls.values():
        print(o.name, o.ok, o.n, round(o.time, 1), str(o.fail)[:600] if o.fail else '')
    print("paths", e.paths, "restarts", e.restarts, "invs", sorted(e.invariants)[:80])
