import sys, os
if not os.environ.get("PYTHONHASHSEED"):
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
import sys, importlib, json
sys.path.insert(0, "/verif")
sys.setrecursionlimit(20000)
from cv import ast as A, unit
m = importlib.import_module("checks." + sys.argv[1])
import os
drv = {}
for n, f in m.UNITS.items():
    if len(sys.argv) > 2 and sys.argv[2] not in n: continue
    d = getattr(f, "driver", m.DRIVER)
    if d not in drv:
        p = "/verif/build/ast_%s.json" % d
        A.load(d, keep=p)
        drv[d] = p
    r = unit.run_unit(n, drv[d], f)
    print(n, r["status"], r["discharged"], "/", r["obligations"], "q", r.get("queries"), "solver", r["solver_s"], "wall", r["wall_s"])
    if r["error"]: print("   ", r["error"])
    for x in r["failed"]: print("   FAILED", x["obligation"], x["where"], x["solver"], json.dumps(x["model"])[:600] if os.environ.get("CV_MODEL") else "")
    if os.environ.get("CV_VERBOSE"): print(json.dumps(r, indent=1)[:3000])
