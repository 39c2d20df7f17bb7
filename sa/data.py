"""Bundled configurations: what their YAML and JSON files say, read as data."""
import ast
import json
import math
import os
import re
import unicodedata

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def definitions(name, *names):
    """Functions and constants of a reference definition, which are plain Python."""
    path = os.path.join(HERE, "specs", name + ".py")
    with open(path, encoding="utf-8") as f:
        tree = ast.parse(f.read())
    keep = [n for n in tree.body if isinstance(n, ast.FunctionDef) and n.name in names or isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in names]
    ns = {"re": re, "math": math}
    exec(compile(ast.Module(keep, []), path, "exec"), ns)
    return ns


EASY = definitions("build", "RULE", "process_rule", "ONMATCH", "CLASS", "process_onmatch")
CONFIG = definitions("config", "kept", "full_cost", "decompress")
PARTS = ("prev_classes", "prev_tokens", "tokens", "next_tokens", "next_classes")


def unescape(text):
    return re.sub(r"\\N{([-A-Z0-9 ]+)}", lambda m: unicodedata.lookup(m.group(1)), text)


def rule_key(r):
    return (r.get("production"),) + tuple(tuple(r.get(p) or ()) for p in PARTS)


def cost_of(r):
    return r["cost"] if r.get("cost") is not None else math.log2(1 + 1 / (1 + sum(len(r.get(p) or ()) for p in PARTS)))


def of_yaml(text):
    import yaml
    d = yaml.safe_load(unescape(text))
    return dict(
        tokens=d["tokens"], rules=[EASY["process_rule"](k, v) for k, v in d["rules"].items()], whitespace=d["whitespace"],
        onmatch_rules=EASY["process_onmatch"](d.get("onmatch_rules")), metadata=d.get("metadata", {}))


def of_json(text):
    d = json.loads(text)
    version = d.get("graphtransliterator_version")
    if d.get("compressed_settings"):
        o = {k: v for k, v in d.items() if k != "compressed_settings"}
        d = CONFIG["decompress"](d["compressed_settings"])
        d.update(o)
    return d, version


def compare(y, j):
    """[(part, what differs)]"""
    out = []
    a, b = {k: set(v) for k, v in y["tokens"].items()}, {k: set(v) for k, v in j["tokens"].items()}
    for t in sorted(set(a) | set(b)):
        if t not in a or t not in b:
            out.append(("tokens", "token %r only in %s" % (t, "JSON" if t in b else "YAML")))
        elif a[t] != b[t]:
            out.append(("tokens", "classes of token %r differ: %s" % (t, sorted(a[t] ^ b[t]))))
    a, b = {}, {}
    for d, rs in ((a, y["rules"]), (b, j["rules"])):
        for r in rs:
            d.setdefault(rule_key(r), []).append(cost_of(r))
    for k in sorted(set(a) | set(b), key=repr):
        if len(a.get(k, ())) != len(b.get(k, ())):
            out.append(("rules", "rule %r is %d times in YAML and %d times in JSON" % (k, len(a.get(k, ())), len(b.get(k, ())))))
        elif any(not math.isclose(x, z, rel_tol=1e-9) for x, z in zip(sorted(a[k]), sorted(b[k]))):
            out.append(("rules", "cost of rule %r differs" % (k,)))
    a, b = [[(r["production"], tuple(r["prev_classes"]), tuple(r["next_classes"])) for r in x["onmatch_rules"] or []] for x in (y, j)]
    if a != b:
        k = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
        out.append(("onmatch_rules", "on-match rule %d differs" % k))
    for k in ("default", "token_class", "consolidate"):
        a, b = y["whitespace"][k], j["whitespace"][k]
        if a != b:
            out.append(("whitespace", "%s is %r in YAML and %r in JSON" % (k, a, b)))
    a, b = y["metadata"] or {}, j["metadata"] or {}
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            out.append(("metadata", "%s is %r in YAML and %r in JSON" % (k, a.get(k), b.get(k))))
    return out


def size(y):
    return len(y["tokens"]) + len(y["rules"]) + len(y["onmatch_rules"] or []) + 3 + len(y["metadata"] or {})


def later(a, b):
    def k(v):
        return [int(n) for n in re.findall(r"\d+", v)]
    return k(a) > k(b)
