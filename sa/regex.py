"""Languages of regular expressions compared, from their syntax trees.

Only what regular expressions of a plain kind consist of (characters, classes,
repetition, alternatives, groups, anchors at either end); for all else nothing
is concluded."""
import re._constants as K
import re._parser as P
from functools import lru_cache

MAXC = 0x10FFFF


class Unsupported(Exception):
    pass


def category(av):
    t = {K.CATEGORY_DIGIT: str.isdigit, K.CATEGORY_SPACE: str.isspace, K.CATEGORY_WORD: lambda c: c.isalnum() or c == "_"}
    n = {K.CATEGORY_NOT_DIGIT: K.CATEGORY_DIGIT, K.CATEGORY_NOT_SPACE: K.CATEGORY_SPACE, K.CATEGORY_NOT_WORD: K.CATEGORY_WORD}
    if av in t:
        return t[av], False
    if av in n:
        return t[n[av]], True
    raise Unsupported(str(av))


class Set:
    """A set of characters: ranges and categories, maybe negated."""

    def __init__(self, items, neg=False):
        self.items, self.neg = items, neg

    def has(self, c):
        o = ord(c)
        r = False
        for k, v in self.items:
            if k == "r" and v[0] <= o <= v[1]:
                r = True
            elif k == "c" and (v[0](c) != v[1]):
                r = True
        return r != self.neg

    def chars(self):
        out = set()
        for k, v in self.items:
            if k == "r":
                for o in (v[0] - 1, v[0], v[1], v[1] + 1):
                    if 0 <= o <= MAXC and not 0xD800 <= o <= 0xDFFF:
                        out.add(chr(o))
        return out


SAMPLES = "aZz_09 \t\n-.,é\u0660\u3000\u200b\u0915"


def charset(items):
    out, neg = [], False
    for op, av in items:
        if op is K.NEGATE:
            neg = True
        elif op is K.LITERAL:
            out.append(("r", (av, av)))
        elif op is K.RANGE:
            out.append(("r", av))
        elif op is K.CATEGORY:
            out.append(("c", category(av)))
        else:
            raise Unsupported(str(op))
    return Set(out, neg)


# NFA: list of (edges, epsilon)
class NFA:
    def __init__(self):
        self.e, self.eps, self.sets = [], [], []

    def state(self):
        self.e.append([])
        self.eps.append([])
        return len(self.e) - 1

    def add(self, seq, s, dotall, depth=0):
        for op, av in seq:
            s = self.one(op, av, s, dotall, depth)
        return s

    def edge(self, s, cs):
        t = self.state()
        self.e[s].append((cs, t))
        self.sets.append(cs)
        if len(self.e) > 4000:
            raise Unsupported("too large")
        return t

    def one(self, op, av, s, dotall, depth):
        if op is K.LITERAL:
            return self.edge(s, Set([("r", (av, av))]))
        if op is K.NOT_LITERAL:
            return self.edge(s, Set([("r", (av, av))], True))
        if op is K.ANY:
            return self.edge(s, Set([], True) if dotall else Set([("r", (10, 10))], True))
        if op is K.IN:
            return self.edge(s, charset(av))
        if op is K.SUBPATTERN:
            g, add, rem, p = av
            if add or rem:
                raise Unsupported("flags")
            return self.add(p, s, dotall, depth)
        if op is K.BRANCH:
            t = self.state()
            for p in av[1]:
                u = self.state()
                self.eps[s].append(u)
                self.eps[self.add(p, u, dotall, depth)].append(t)
            return t
        if op in (K.MAX_REPEAT, K.MIN_REPEAT, getattr(K, "POSSESSIVE_REPEAT", None)) and op is not getattr(K, "POSSESSIVE_REPEAT", None):
            lo, hi, p = av
            if lo > 20 or hi is not K.MAXREPEAT and hi > 20:
                raise Unsupported("repeat")
            for _ in range(lo):
                s = self.add(p, s, dotall, depth + 1)
            t = self.state()
            if hi is K.MAXREPEAT:
                u = self.state()
                self.eps[s].append(u)
                v = self.add(p, u, dotall, depth + 1)
                self.eps[v].append(u)
                self.eps[u].append(t)
            else:
                self.eps[s].append(t)
                for _ in range(hi - lo):
                    s = self.add(p, s, dotall, depth + 1)
                    self.eps[s].append(t)
            return t
        if op is K.AT and av in (K.AT_BEGINNING, K.AT_BEGINNING_STRING, K.AT_END, K.AT_END_STRING) and depth == 0:
            # an anchor is a letter of its own, of no width
            return self.edge(s, str(av))
        raise Unsupported(str(op))

    def close(self, ss):
        st, out = list(ss), set(ss)
        while st:
            x = st.pop()
            for y in self.eps[x]:
                if y not in out:
                    out.add(y)
                    st.append(y)
        return frozenset(out)

    def step(self, ss, c):
        out = set()
        for x in ss:
            for cs, t in self.e[x]:
                if cs == c if type(cs) is str or len(c) > 1 else cs.has(c):
                    out.add(t)
        return self.close(out)


def build(pattern, flags):
    p = P.parse(pattern, flags)
    n = NFA()
    s = n.state()
    t = n.add(p, s, bool(flags & 16))
    return n, n.close([s]), t


@lru_cache(None)
def same_language(a, b, flags=0):
    """True, False or None (not known)."""
    try:
        A, B = build(a, flags), build(b, flags)
    except (Unsupported, re_error(), RecursionError, TypeError, ValueError):
        return None
    letters = set(SAMPLES)
    for n in (A[0], B[0]):
        for cs in n.sets:
            if type(cs) is str:
                letters.add(cs)
            else:
                letters |= cs.chars()
    todo, seen = [(A[1], B[1])], set()
    while todo:
        x, y = todo.pop()
        if (x, y) in seen:
            continue
        seen.add((x, y))
        if len(seen) > 4000:
            return None
        if (A[2] in x) != (B[2] in y):
            return False
        for c in letters:
            p, q = A[0].step(x, c), B[0].step(y, c)
            if p or q:
                todo.append((p, q))
    return True


def re_error():
    import re
    return re.error
