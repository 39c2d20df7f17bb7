"""When two rules are ambiguous."""
import itertools

from graphtransliterator.exceptions import AmbiguousTransliterationRulesException


def before(rule):
    return len(rule.prev_classes or []) + len(rule.prev_tokens or [])


def after(rule):
    return len(rule.tokens) + len(rule.next_tokens or []) + len(rule.next_classes or [])


def row_of(gt, rule, most_before, width):
    """Sets of tokens that may be at each position, aligned on the rule's tokens."""
    anything = set(gt.tokens.keys())
    row = [anything] * (most_before - before(rule))
    row += [gt.tokens_by_class[c] for c in rule.prev_classes or []]
    row += [set([t]) for t in rule.prev_tokens or []]
    row += [set([t]) for t in rule.tokens]
    row += [set([t]) for t in rule.next_tokens or []]
    row += [gt.tokens_by_class[c] for c in rule.next_classes or []]
    row += [anything] * (width - len(row))
    return row


def check(gt):
    rules = gt.rules
    if not rules:
        return True
    most_before = max([before(r) for r in rules])
    width = most_before + max([after(r) for r in rules])
    rows = [row_of(gt, r, most_before, width) for r in rules]

    def common(a, b):
        out = []
        for k in range(width):
            both = a[k].intersection(b[k])
            if not both:
                return None
            out.append(both)
        return out

    def within(part, row):
        return all(not part[k].difference(row[k]) for k in range(len(part)))

    found = False
    for _cost, members in itertools.groupby(sorted(enumerate(rules), key=lambda p: p[1].cost), key=lambda p: p[1].cost):
        members = list(members)
        if len(members) == 1:
            continue
        for x in range(len(members) - 1):
            for y in range(x + 1, len(members)):
                i = members[x][0]
                j = members[y][0]
                both = common(rows[i], rows[j])
                if not both:
                    continue
                resolved = False
                for r in range(len(rules)):
                    if r == i or r == j or rules[r].cost >= rules[i].cost:
                        continue
                    if within(both, rows[r]):
                        resolved = True
                        break
                if not resolved:
                    found = True
    if found:
        raise AmbiguousTransliterationRulesException
