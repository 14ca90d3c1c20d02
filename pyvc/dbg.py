import sys, time, importlib
from pyvc.contract import *
from pyvc.core import Config
Config.prove_ms = 8000
m = importlib.import_module("contracts." + sys.argv[1])
dbg = "-d" in sys.argv
only = [a for a in sys.argv[2:] if not a.startswith("-")]
for g in m.GOALS:
    if only and g.name not in only: continue
    r = run_goal(g, time.time() + 600, dbg)
    bad = [o for o in r.obligations if o.status != "proved"]
    print(g.name, "obligations", len(r.obligations), "bad", len(bad), "paths", r.paths, "q", r.queries, "%.1fs" % r.seconds, r.error or "", "uncovered", r.uncovered, flush=True)
    for o in bad[:8]:
        print("   ", o.status, o.name, o.detail and o.detail["goal"][:300].replace("\n", " "))
        if "-v" in sys.argv:
            for f in o.detail["path"]: print("        ", f.replace("\n", " "))
