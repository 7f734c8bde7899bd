"""development: run obligations by prefix and show the outcome"""
import os, sys
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"; os.environ["PYTHONDONTWRITEBYTECODE"]="1"
    os.execv(sys.executable, [sys.executable, *sys.argv])
sys.path.insert(0, "/verif")
import sa.driver as d
root = os.environ.get("ROOT", "/repo")
props = d.load_rules()
from sa.check import REGISTRY
pre = sys.argv[1:] or [""]
oids = [o for o in REGISTRY if any(o.startswith(x) for x in pre)]
res = d.run_obligations(oids, root, "quick")
bad = 0
for o in oids:
    m = res[o]
    if m["status"] != "holds" or "-v" in os.environ.get("DEV", ""):
        bad += 1
        print("==", o, m["status"], f"{m['wall']:.1f}s")
        for f in m.get("findings", ()):
            print("    V", f["where"], f["message"])
        for u in m.get("undecided", ()):
            print("    U", u)
        if "error" in m: print("    E", m["error"])
        if "trace" in m: print(m["trace"])
print(len(oids), "obligations,", bad, "not holding; slowest", sorted(((round(res[o]["wall"],1), o) for o in oids), reverse=True)[:3])
