"""Compressed settings."""
import math


def kept(d):
    """Without empty values, but with zeros and empty texts."""
    return {k: v for k, v in d.items() if v or type(v) in (int, float) and v == 0 or type(v) is str and v == ""}


def short_cost(x):
    if 0 < 2**x - 1 and 2**x - 1 <= 1:
        n = round(1 / (2**x - 1) - 1)
        if x == math.log2(1 + 1 / (1 + n)):
            return -n
    return [x]


def full_cost(x):
    if isinstance(x, (list, tuple)):
        return x[0]
    return math.log2(1 + 1 / (1 - x))


def compress(config, compression_level):
    if compression_level == 0:
        return config
    token_list = sorted(config["tokens"].keys())
    class_list = sorted(set().union(*config["tokens"].values()))
    type_list = sorted(set([n["type"] for n in config["graph"]["node"]]))
    token_id = {token_list[i]: i for i in range(len(token_list))}
    class_id = {class_list[i]: i for i in range(len(class_list))}
    type_id = {type_list[i]: i for i in range(len(type_list))}

    def ids(table, values):
        return tuple([table[v] for v in values]) if values else 0

    def id_list(table, values):
        return [table[v] for v in values] if values else 0

    rules = tuple(
        [
            (
                r["production"],
                ids(class_id, r.get("prev_classes")),
                ids(token_id, r.get("prev_tokens")),
                tuple([token_id[t] for t in r.get("tokens")]),
                ids(token_id, r.get("next_tokens")),
                ids(class_id, r.get("next_classes")),
                short_cost(r["cost"]),
            )
            for r in config["rules"]
        ]
    )
    white = config["whitespace"]
    whitespace = (white["default"], white["token_class"], 1 if white["consolidate"] else 0)
    onmatch_rules = 0
    if config.get("onmatch_rules"):
        onmatch_rules = tuple(
            [
                (
                    tuple([class_id[c] for c in r["prev_classes"]]),
                    tuple([class_id[c] for c in r["next_classes"]]),
                    r["production"],
                )
                for r in config["onmatch_rules"]
            ]
        )

    def children(node):
        out = {}
        for k in node.get("ordered_children"):
            out[-1 if k == "__rules__" else token_id[k]] = node.get("ordered_children")[k]
        return out

    def short_node(node):
        kind = node["type"]
        head = (type_id[kind], 1 if node.get("accepting") else 0)
        if kind == "Start":
            out = head + (children(node),)
        elif kind == "rule":
            out = head + (node["rule_key"],)
        elif kind == "token":
            out = head + (token_id[node["token"]], children(node))
        return out

    def short_edge(data):
        c = data.get("constraints")
        constraints = 0
        if c:
            constraints = [
                id_list(class_id, c.get("prev_classes")),
                id_list(token_id, c.get("prev_tokens")),
                id_list(token_id, c.get("next_tokens")),
                id_list(class_id, c.get("next_classes")),
            ]
        token = data.get("token")
        return (constraints, short_cost(data.get("cost")), token_id[token] if token else -1)

    if compression_level == 1:
        g = config.get("graph")
        graph = [
            tuple(type_list),
            tuple([short_node(n) for n in g["node"]]),
            {int(h): {int(t): short_edge(d) for t, d in tails.items()} for h, tails in g["edge"].items()},
        ]
    elif compression_level == 2:
        graph = None
    else:
        return None
    return (
        tuple(class_list),
        tuple(token_list),
        tuple([tuple([class_id[c] for c in config["tokens"][t]]) for t in token_list]),
        rules,
        whitespace,
        onmatch_rules,
        config.get("metadata", 0),
        graph,
    )


def decompress(settings):
    classes, token_list, token_classes, rules_, whitespace, onmatch_rules, metadata, graph_ = settings
    classes = list(classes)
    token_list = list(token_list)

    def named(table, ids):
        return [table[i] for i in ids] if ids else []

    def rule(r):
        return kept(
            {
                "production": r[0],
                "prev_classes": named(classes, r[1]),
                "prev_tokens": named(token_list, r[2]),
                "tokens": [token_list[i] for i in r[3]],
                "next_tokens": named(token_list, r[4]),
                "next_classes": named(classes, r[5]),
                "cost": full_cost(r[6]),
            }
        )

    class_of = dict(enumerate(classes))
    token_of = dict(enumerate(token_list))

    def children(x):
        out = {}
        for k in x:
            i = int(k)
            out["__rules__" if i == -1 else token_of[i]] = x[k]
        return out

    def part(table, ids):
        return None if ids == 0 else [table[i] for i in ids]

    def edge(data):
        constraints, cost, token = data
        out = {}
        if constraints:
            out["constraints"] = kept(
                {
                    "prev_classes": part(class_of, constraints[0]),
                    "prev_tokens": part(token_of, constraints[1]),
                    "next_tokens": part(token_of, constraints[2]),
                    "next_classes": part(class_of, constraints[3]),
                }
            )
        out["cost"] = full_cost(cost)
        if token != -1:
            out["token"] = token_of[token]
        return out

    graph = None
    if graph_:
        types, nodes, edges = graph_
        type_of = dict(enumerate(types))

        def node(n):
            kind = type_of[n[0]]
            accepting = bool(n[1])
            if kind == "Start":
                out = {"type": kind, "accepting": accepting, "ordered_children": children(n[2])}
            elif kind == "rule":
                out = {"type": kind, "accepting": accepting, "rule_key": n[2]}
            elif kind == "token":
                out = {"type": kind, "accepting": accepting, "ordered_children": children(n[3])}
                out["token"] = token_of[n[2]]
            return kept(out)

        graph = {
            "node": [node(n) for n in nodes],
            "edge": {int(h): {int(t): edge(d) for t, d in tails.items()} for h, tails in edges.items()},
        }
    return {
        "tokens": {token_list[i]: [classes[c] for c in token_classes[i]] for i in range(len(token_list))},
        "rules": [rule(r) for r in rules_],
        "whitespace": {"default": whitespace[0], "token_class": whitespace[1], "consolidate": whitespace[2]},
        "onmatch_rules": [
            {
                "prev_classes": [class_of[c] for c in r[0]],
                "next_classes": [class_of[c] for c in r[1]],
                "production": r[2],
            }
            for r in onmatch_rules
        ]
        if onmatch_rules
        else None,
        "graph": graph,
        "metadata": metadata,
    }
