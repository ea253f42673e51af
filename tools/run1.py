import sys, json, time, importlib
sys.path.insert(0, "/verif")
from cvf.frontend import TU
from cvf import dsl
import specs.common
mods = sys.argv[1].split(","); names = sys.argv[2:]
for m in mods: importlib.import_module("specs." + m)
import os
tu = TU(os.environ.get("REPO", "/repo"), os.environ.get("VARIANT", "source"), "/tmp/w")
for s in [x for x in dsl.SPECS if not x.trusted]:
    if s.__class__.__module__.split(".")[-1] not in mods: continue
    if names and s.fn not in names and s.name not in names: continue
    r = dsl.verify(tu, s, debug=bool(os.environ.get("DBG")), bounded=int(os.environ["B"]) if os.environ.get("B") else None)
    print(r["name"] if "name" in r else r["spec"], r["fn"], r["status"], "proved", r.get("proved"), "paths", r.get("paths"), "t", r.get("wall_s"), "err", r.get("error"), "used", r.get("used"), *(["DEAD", r["dead"], "of", r["dead"] + r["reached"]] if r.get("dead") else []))
    for f in r.get("failed", [])[:6]: print("   FAIL", f["label"], f.get("kind"), "\n      ", (f.get("detail") or "")[:400], "\n      ", (f.get("cond") or "")[:300])
