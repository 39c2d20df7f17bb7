"""Decides the properties: each from obligations (obligations.py, rules.py)."""
import argparse
import json
import os
import re
import sys
import time

from . import runner
from .obligations import OBL
from . import rules, effects  # noqa: F401 (register further obligations)
from .props import PROPS

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known(pid):
    """Findings listed for a property: texts that must occur in what is found."""
    out = []
    try:
        with open(os.path.join(HERE, "known_findings.txt"), encoding="utf-8") as f:
            for l in f:
                m = re.match(r"finding: property=(\S+) (.*?) :: (.*)", l.strip())
                if m and m.group(1) == pid:
                    out.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return out


def decide(pid, repo, tier):
    spec = PROPS[pid]
    names = []
    for o, _ in spec["obligations"]:
        if o not in names:
            names.append(o)
    limit = 300 if tier == "quick" else 800
    res = runner.run([(n, OBL[n][1]) for n in names], repo, limit=limit, total=840)
    rows, errors, missing, functions = [], [], [], set()
    for o, pat in spec["obligations"]:
        d = res[o]
        functions |= set(d["functions"])
        for x in d["missing"]:
            missing.append("%s: %s" % (o, x))
        if d["error"]:
            errors.append("%s: %s" % (o, d["error"]))
        for y in d["obligations"]:
            if pat is None or re.search(pat, y["obligation"]):
                if not any(y is r for r in rows):
                    rows.append(y)
    return dict(rows=rows, errors=errors, missing=missing, functions=sorted(functions), obls={n: res[n]["wall_s"] for n in names})


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", choices=sorted(PROPS))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--evidence", default=os.path.join(HERE, "evidence"))
    a = ap.parse_args()
    t0 = time.time()
    pid = a.property
    tier = "thorough" if a.tier == "thorough" else "quick"
    spec = PROPS[pid]
    d = decide(pid, a.repo, tier)
    rows = d["rows"]
    bad = [r for r in rows if r["status"] == "violated"]
    und = [r for r in rows if r["status"] == "undecided"]
    held = [r for r in rows if r["status"] == "held"]
    listed, new = [], []
    for r in bad:
        for what, text in known(pid):
            if what in r["obligation"] and text in json.dumps(r.get("detail", [])):
                listed.append((r, what, text))
                break
        else:
            new.append(r)
    cov = dict(
        explanation="%s Decided from the abstract syntax tree of the source in %s, which is parsed again on every run and never executed. "
        "An obligation is held if what the source computes has the same normal form as its definition (or if the rule holds for every construct it applies to), "
        "violated if a specific construct certainly differs, and undecided if it is written in a way the analysis cannot relate to the definition." % (spec["how"], os.path.abspath(a.repo)),
        obligations=len(rows), discharged=len(held), undecided=len(und), violated=len(bad),
        instances=sum(r.get("instances", 1) for r in rows),
        functions_analysed=d["functions"], function_count=len(d["functions"]),
        rules=sorted({"%s: %s" % (r["obligation"], r["rule"]) for r in rows}),
        samples=[{k: v for k, v in r.items()} for r in (bad + und + held)[:40]],
        not_analysed=d["errors"], seconds_per_obligation=d["obls"],
    )
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED") or 0), level=spec.get("level", "other"), coverage=cov,
              assumptions=spec.get("assumes", []) + COMMON, wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(a.evidence, exist_ok=True)
    with open(os.path.join(a.evidence, pid + ".json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for r in und:
        print("UNDECIDED property=%s %s (%s)" % (pid, r["obligation"], r["where"]))
    for e in d["errors"]:
        print("UNDECIDED property=%s %s" % (pid, e.strip().splitlines()[-1]))
    for r, what, text in listed:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, what, text))
    if new:
        path = os.path.join(a.evidence, pid + ".violation.json")
        with open(path, "w", encoding="utf-8") as f:
            json.dump(dict(property=pid, command="python3 check.py %s" % pid, violations=new), f, indent=1)
            f.write("\n")
        for r in new:
            print("%s: %s" % (r["where"], r["obligation"]))
            print("    rule: " + r["rule"])
            for x in r.get("detail", [])[:4]:
                print("    " + x[:600])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if d["missing"] or not held and not und and not d["errors"]:
        for x in d["missing"]:
            print("ERROR property=%s not found: %s" % (pid, x))
        print("ERROR property=%s: nothing left to decide it from" % pid)
        return 2
    if len(rows) < spec.get("floor", 1) and not d["errors"]:
        print("ERROR property=%s: %d obligations, fewer than the %d confirmed" % (pid, len(rows), spec["floor"]))
        return 2
    print("property=%s %d obligations held, %d undecided, %d functions, %.1f s" % (pid, len(held), len(und), len(d["functions"]), time.time() - t0))
    return 0


COMMON = [
    "Python semantics of the analysed constructs as modelled in sa/evalr.py and sa/terms.py; standard library, marshmallow, yaml and click behave as documented",
    "values have the types the documentation gives them; no monkey patching of the package from outside",
]
