"""What is derived from the settings of a transliterator."""
import math
import re
import unicodedata

from graphtransliterator import DirectedGraph, OnMatchRule, TransliterationRule, WhitespaceRules

SIDES = ("prev_classes", "prev_tokens", "next_tokens", "next_classes")


def tokens_by_class(tokens):
    table = {}
    for token, classes in tokens.items():
        for c in classes:
            if c not in table:
                table[c] = set()
            table[c].add(token)
    return table


def tokens_by_class_sorted(tokens):
    table = {}
    for token, classes in tokens.items():
        for c in sorted(classes):
            if c not in table:
                table[c] = set()
            table[c].add(token)
    return table


def onmatch_rules_lookup(tokens, onmatch_rules):
    if not onmatch_rules:
        return None
    table = {}
    for i in range(len(onmatch_rules)):
        rule = onmatch_rules[i]
        for current in tokens:
            if rule.next_classes[0] not in tokens[current]:
                continue
            for previous in tokens:
                if rule.prev_classes[-1] in tokens[previous]:
                    table.setdefault(current, {}).setdefault(previous, []).append(i)
    return table


def tokenizer_pattern(tokens):
    longest_first = sorted(tokens, key=lambda t: (len(t), t), reverse=True)
    return "(%s)" % "|".join(re.escape(t) for t in longest_first)


def cost_of(rule):
    n = len(rule.get("tokens"))
    for side in SIDES:
        if rule.get(side):
            n += len(rule.get(side))
    return math.log2(1 + 1 / (1 + n))


def rule_of(rule):
    return TransliterationRule(
        rule.get("production"),
        rule.get("prev_classes"),
        rule.get("prev_tokens"),
        rule.get("tokens"),
        rule.get("next_tokens"),
        rule.get("next_classes"),
        rule.get("cost", cost_of(rule)),
    )


def onmatch_rule_of(rule):
    return OnMatchRule(rule["prev_classes"], rule["next_classes"], rule["production"])


def whitespace_of(w):
    return WhitespaceRules(w["default"], w["token_class"], w["consolidate"])


def graph(rules):
    g = DirectedGraph()
    g.add_node({"type": "Start"})
    for key in range(len(rules)):
        rule = rules[key]
        at = 0
        for token in rule.tokens:
            children = g.node[at].get("token_children") or {}
            child = children.get(token)
            if child is None:
                child = g.add_node({"type": "token", "token": token})[0]
                g.add_edge(at, child, {"token": token})
                children[token] = child
                g.node[at]["token_children"] = children
            edge = g.edge[at][child]
            if edge.get("cost") is None or rule.cost < edge.get("cost"):
                edge["cost"] = rule.cost
            at = child
        leaf = g.add_node({"type": "rule", "rule_key": key, "accepting": True})[0]
        leaves = g.node[at].get("rule_children", [])
        leaves.append(leaf)
        g.node[at]["rule_children"] = sorted(leaves, key=lambda k: rules[g.node[k]["rule_key"]].cost)
        edge = g.add_edge(at, leaf, {"cost": rule.cost})
        if rule.prev_classes or rule.prev_tokens or rule.next_tokens or rule.next_classes:
            constraints = {}
            if rule.prev_classes:
                constraints["prev_classes"] = rule.prev_classes
            if rule.prev_tokens:
                constraints["prev_tokens"] = rule.prev_tokens
            if rule.next_tokens:
                constraints["next_tokens"] = rule.next_tokens
            if rule.next_classes:
                constraints["next_classes"] = rule.next_classes
            edge["constraints"] = constraints

    for key in range(len(g.node)):
        node = g.node[key]
        ordered = {}
        leaves = node.get("rule_children")
        if leaves:
            ordered["__rules__"] = sorted(leaves, key=lambda k: rules[g.node[k]["rule_key"]].cost)
            node.pop("rule_children")
        children = node.get("token_children")
        if children:
            for token in children:
                below = [children[token]]
                if leaves:
                    below = below + leaves
                ordered[token] = sorted(below, key=lambda k: g.edge[key][k]["cost"])
            node.pop("token_children")
        node["ordered_children"] = ordered
    return g


def unescape(text):
    def named(match):
        return unicodedata.lookup(re.match(r"\\N{([-A-Z0-9 ]+)}", match.group(0)).group(1))

    return re.sub(r"\\N{[-A-Z0-9 ]+}", named, text)
