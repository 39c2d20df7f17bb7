#!/usr/bin/python3
"""Apply each edit of a corpus file to a scratch copy of /repo and run checks.

Corpus format, repeated:
  === NAME | quiet          (or the properties that should report it)
  --- FILE                  (below graphtransliterator/)
  OLD
  >>>
  NEW
try.py [-t] [-o] FILE [NAME...]   -t: also run the repository's tests
"""
import os, re, shutil, subprocess, sys, tempfile, json
sys.dont_write_bytecode = True
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from sa import runner
from sa.obligations import OBL
import sa.rules, sa.effects
from sa.props import PROPS

def parse(path):
    out = []
    cur = None
    for l in open(path, encoding="utf-8"):
        if l.startswith("=== "):
            n, e = l[4:].strip().split("|")
            cur = dict(name=n.strip(), expect=e.split(), edits=[])
            out.append(cur)
        elif cur is None or l.startswith("#!"):
            continue
        elif l.startswith("--- "):
            cur["edits"].append([l[4:].strip(), "", None])
        elif l.rstrip("\n") == ">>>":
            cur["edits"][-1][2] = ""
        elif cur["edits"]:
            k = cur["edits"][-1]
            k[1 if k[2] is None else 2] += l
    return out

def apply(item, dst):
    for f, old, new in item["edits"]:
        p = os.path.join(dst, "graphtransliterator", f)
        s = open(p, encoding="utf-8").read()
        old, new = old.rstrip("\n") + "\n", (new.rstrip("\n") + "\n") if new.strip() else ""
        if old.strip() == "":
            s = s.rstrip("\n") + "\n" + new
        else:
            if s.count(old) != 1:
                raise SystemExit("%s: %s: found %d times:\n%s" % (item["name"], f, s.count(old), old))
            s = s.replace(old, new)
        open(p, "w", encoding="utf-8").write(s)
        compile(s, p, "exec")

def main():
    a = sys.argv[1:]
    tests = verbose = False
    allp = False
    while a and a[0].startswith("-"):
        if a[0] == "-t": tests = True
        if a[0] == "-v": verbose = True
        if a[0] == "-a": allp = True
        a = a[1:]
    items = parse(a[0])
    if len(a) > 1:
        items = [i for i in items if any((i["name"] + " ").startswith(x) for x in a[1:])]
    bad = 0
    for it in items:
        d = tempfile.mkdtemp(prefix="try")
        try:
            shutil.copytree("/repo", d + "/r", ignore=shutil.ignore_patterns(".git", "docs", "paper"))
            dst = d + "/r"
            apply(it, dst)
            note = ""
            if tests:
                q = subprocess.run(["/opt/venv-pypy/bin/python", "-m", "pytest", "-q", "-x", "tests"], cwd=dst, env=dict(os.environ, PYTHONPATH=dst), capture_output=True, text=True)
                note = " TESTS: " + q.stdout.strip().splitlines()[-1] if q.returncode else " tests pass"
            ps = list(PROPS) if it["expect"] == ["quiet"] or allp else [p for p in it["expect"] if p in PROPS]
            obls = []
            for p in ps:
                for o, _ in PROPS[p]["obligations"]:
                    if o not in obls: obls.append(o)
            obls.sort(key=lambda o: o != "match_at")
            res = runner.run([(o, OBL[o][1]) for o in obls], dst)
            alarms, und = {}, {}
            for p in ps:
                for o, pat in PROPS[p]["obligations"]:
                    for y in res[o]["obligations"]:
                        if pat is None or re.search(pat, y["obligation"]):
                            if y["status"] == "violated": alarms.setdefault(p, []).append(y)
                            if y["status"] == "undecided": und.setdefault(p, []).append(y)
                    if res[o]["error"] or res[o]["missing"]:
                        und.setdefault(p, []).append(dict(obligation=o, where="", detail=[str(res[o]["error"])[-300:], str(res[o]["missing"])]))
            if it["expect"] == ["quiet"]:
                ok = not alarms
                st = "ok   " if ok and not und else "ok(?)" if ok else "ALARM"
            else:
                ok = all(p in alarms for p in it["expect"])
                st = "ok   " if ok else "MISS " + ",".join(p for p in it["expect"] if p not in alarms)
            bad += not ok
            print(st, it["name"], "| alarms:", ",".join(sorted(alarms)) or "-", "| undecided:", ",".join(sorted(und)) or "-", note, flush=True)
            if verbose or not ok:
                seen = set()
                for p, l in list(alarms.items() if it["expect"] == ["quiet"] or verbose else []) + list(und.items()):
                    for y in l:
                        if y["obligation"] in seen: continue
                        seen.add(y["obligation"])
                        print("      ", y["obligation"], y.get("where"), y.get("not modelled", ""))
                        for z in y.get("detail", [])[:2]: print("           ", z[:500])
        finally:
            shutil.rmtree(d)
    print(len(items), "edits,", bad, "not as expected")
if __name__ == "__main__":
    main()
