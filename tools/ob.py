#!/usr/bin/python3
"""Run obligations by name: ob.py [-r REPO] [-v] [name...]"""
import sys, os, time
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import runner
from sa.obligations import OBL
import sa.rules, sa.effects
a = sys.argv[1:]
repo = "/repo"
v = False
if a[:1] == ["-r"]:
    repo = a[1]; a = a[2:]
if a[:1] == ["-v"]:
    v = True; a = a[1:]
names = a or list(OBL)
t = time.time()
res = runner.run([(n, OBL[n][1]) for n in names], repo)
for n in names:
    d = res[n]
    st = [o["status"] for o in d["obligations"]]
    print(n, d["wall_s"], "held %d" % st.count("held"), *(["VIOLATED %d" % st.count("violated")] if "violated" in st else []), *(["undecided %d" % st.count("undecided")] if "undecided" in st else []), *(["missing", d["missing"]] if d["missing"] else []), d["error"] or "")
    for o in d["obligations"]:
        if o["status"] != "held" or v:
            print("   ", o["status"], o["obligation"], "|", o["where"], o.get("not modelled", ""))
            for s in o.get("detail", []):
                print("        ", s[:700])
print(round(time.time() - t, 1))
