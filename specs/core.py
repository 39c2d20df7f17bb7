"""What the methods of a transliterator do, in terms of its public properties."""
import json
import logging

from graphtransliterator import (
    GraphTransliterator,
    GraphTransliteratorSchema,
    HIGHEST_COMPRESSION_LEVEL,
    NoMatchingTransliterationRuleException,
    UnrecognizableInputTokenException,
    __version__,
)
from graphtransliterator.compression import compress_config
import heapq
import itertools
import re

logger = logging.getLogger("graphtransliterator")


# ------------------------------------------------------------- tokenizing

def tokenize(gt, input):
    default = gt.whitespace.default
    tokens = [default]
    after_whitespace = True
    pos = 0
    pattern = re.compile(gt.tokenizer_pattern, re.DOTALL)
    while pos < len(input):
        match = pattern.match(input, pos)
        if not match:
            logger.warning("unrecognizable")
            if not gt.ignore_errors:
                raise UnrecognizableInputTokenException
            pos += 1
            continue
        pos = match.end()
        token = match.group(0)
        white = gt.whitespace.token_class in gt.tokens[token]
        if white and after_whitespace and gt.whitespace.consolidate:
            tokens[-1] = default
            continue
        after_whitespace = white
        tokens.append(token)
    if gt.whitespace.consolidate:
        while len(tokens) > 1 and gt.whitespace.token_class in gt.tokens[tokens[-1]]:
            tokens.pop()
    tokens.append(default)
    return tokens


# --------------------------------------------------------------- matching

def found(tokens, start, wanted):
    """Wanted tokens are at start."""
    return all(tokens[start + i] == wanted[i] for i in range(len(wanted)))


def of_classes(gt, tokens, start, wanted):
    return all(wanted[i] in gt.tokens[tokens[start + i]] for i in range(len(wanted)))


def length_of_rule(gt, node):
    return len(gt.rules[node["rule_key"]].tokens)


def applies(gt, edge, node, at, tokens):
    constraints = edge.get("constraints")
    if not constraints:
        return True
    for kind, wanted in constraints.items():
        if kind == "prev_tokens":
            start = at - len(gt.rules[node["rule_key"]].tokens) - len(wanted)
            if start < 0 or not found(tokens, start, wanted):
                return False
        elif kind == "next_tokens":
            if at + len(wanted) > len(tokens) or not found(tokens, at, wanted):
                return False
        elif kind == "prev_classes":
            start = at - len(gt.rules[node["rule_key"]].tokens)
            if constraints.get("prev_tokens"):
                start -= len(constraints.get("prev_tokens"))
            start -= len(wanted)
            if start < 0 or not of_classes(gt, tokens, start, wanted):
                return False
        elif kind == "next_classes":
            start = at
            if constraints.get("next_tokens"):
                start += len(constraints.get("next_tokens"))
            if start + len(wanted) > len(tokens) or not of_classes(gt, tokens, start, wanted):
                return False
    return True


def match_at(gt, token_i, tokens, match_all):
    matches = []
    todo = []
    count = itertools.count()

    def add_children(key, i):
        children = None
        ordered = gt.graph.node[key].get("ordered_children")
        if not ordered:
            return
        if i < len(tokens):
            children = ordered.get(tokens[i])
        if not children:
            children = ordered.get("__rules__")
        for child in reversed(children or []):
            heapq.heappush(todo, (gt.graph.edge[key][child]["cost"], -next(count), child, key, i))

    add_children(0, token_i)
    while todo:
        _cost, _n, key, parent, i = heapq.heappop(todo)
        node = gt.graph.node[key]
        if node.get("accepting") and applies(gt, gt.graph.edge[parent][key], node, i, tokens):
            if not match_all:
                return node["rule_key"]
            matches.append(node["rule_key"])
        else:
            add_children(key, i + 1)
    if match_all:
        return matches
    return None


# ---------------------------------------------------------- transliterating

def insertion(gt, tokens, i):
    """Production of the first on-match rule that applies before token i."""
    if not gt.onmatch_rules:
        return ""
    by_prev = gt.onmatch_rules_lookup.get(tokens[i])
    keys = by_prev.get(tokens[i - 1]) if by_prev else None
    for k in keys or []:
        rule = gt.onmatch_rules[k]
        if i - len(rule.prev_classes) < 0 or i + len(rule.next_classes) > len(tokens):
            continue
        if of_classes(gt, tokens, i - len(rule.prev_classes), rule.prev_classes) and of_classes(gt, tokens, i, rule.next_classes):
            return rule.production
    return ""


def transliterate(gt, input):
    tokens = gt.tokenize(input)
    output = ""
    i = 1
    while i < len(tokens) - 1:
        key = gt.match_at(i, tokens)
        if key is None:
            logger.warning("no rule")
            if not gt.ignore_errors:
                raise NoMatchingTransliterationRuleException
            i += 1
            continue
        output += insertion(gt, tokens, i) + gt.rules[key].production
        i += len(gt.rules[key].tokens)
    return output


def matched_keys(gt, input):
    """Keys of rules matched, in order."""
    tokens = gt.tokenize(input)
    keys = []
    i = 1
    while i < len(tokens) - 1:
        key = gt.match_at(i, tokens)
        if key is None:
            if not gt.ignore_errors:
                raise NoMatchingTransliterationRuleException
            i += 1
            continue
        keys.append(key)
        i += len(gt.rules[key].tokens)
    return keys


def matched_rules(gt, keys):
    return [gt.rules[k] for k in keys]


def matched_rule_tokens(gt, keys):
    return [gt.rules[k].tokens for k in keys]


# ------------------------------------------------------------------ pruning

def pruned_of(gt, productions, check_ambiguity):
    if isinstance(productions, str):
        productions = [productions]
    return GraphTransliterator(
        gt.tokens,
        [r for r in gt.rules if r.production not in productions],
        gt.whitespace,
        onmatch_rules=gt.onmatch_rules,
        metadata=gt.metadata,
        ignore_errors=gt.ignore_errors,
        check_ambiguity=check_ambiguity,
    )
