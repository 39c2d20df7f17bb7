"""Whether a value depends on the order in which a set is iterated."""
from .terms import *
from .terms import _raw, open1, open_body, fresh_ix
from .pp import pp


ORDERED = {"dict.fromkeys", "collections.OrderedDict.fromkeys", "enumerate", "zip", "collections.OrderedDict", "itertools.chain", "itertools.count", "join"}
INSENSITIVE = {"len", "isinstance", "type", "set", "frozenset", "sorted", "max", "min", "sum", "any", "all", "bool", "union", "intersection", "difference", "symmetric_difference",
               "issubset", "issuperset", "isdisjoint"}


def is_set(t):
    x = ty(t)
    return t.op in ("setof", "setadd", "setupd") or bool(x) and x[0] == "set"


def index_use(body, ix, k):
    """Whether the index is used other than to take the element."""
    st, seen = [body], set()
    while st:
        t = st.pop()
        if t is ix:
            return True
        if t is k or t in seen or ix not in t.fs:
            continue
        seen.add(t)
        st += [a for a in t.args if type(a) is T]
    return False


def has_term(t, k):
    st, seen = [t], set()
    while st:
        y = st.pop()
        if y is k:
            return True
        if type(y) is not T or y in seen or not k.fs <= y.fs:
            continue
        seen.add(y)
        st += y.args
    return False


def injective(l):
    """Whether a sort key holds the element itself."""
    if l.op != "lam":
        return False
    ix = fresh_ix()
    b = open1(l, ix)
    if b is ix:
        return True
    return b.op in ("tuple", "list") and ix in b.args


class Walk:
    def __init__(self):
        self.found = []  # (certain, term, why)
        self.seen = set()

    def add(self, t, why, certain=True):
        self.found.append((certain, t, why))

    def go(self, t, free):
        if type(t) is not T:
            return
        if not t.args or (t, free) in self.seen or (t, False) in self.seen:
            return
        self.seen.add((t, free))
        op, a = t.op, t.args
        g = self.go
        if op in ("c", "sym", "root", "glob"):
            return
        if op == "iterset":
            if not free:
                self.add(t, "elements of a set in the order of its iteration")
            return g(a[0], True)
        if op in ("iterof", "keys", "astuple", "aslist"):
            if op != "keys" and is_set(a[0]) and not free:
                self.add(t, "elements of a set in the order of its iteration")
            return g(a[0], free or is_set(a[0]))
        if op == "sorted":
            f = free or a[1] is NONE or a[1] is None or injective(a[1])
            if is_set(a[0]) and not f:
                self.add(t, "sorted by a key that leaves elements of a set in the order of its iteration")
            g(a[0], f or is_set(a[0]))
            return g(a[1], False)
        if op == "setof":
            return g(a[0], True)
        if op in ("setadd", "setupd", "len", "truthy", "isnone"):
            for x in a:
                g(x, True)
            return
        if op == "in":
            g(a[0], False)
            return g(a[1], True)
        if op in ("flat", "exists", "first", "sum", "lam"):
            n = a[1]
            ix = fresh_ix()
            bodies = [open_body(t, i, ix) for i in range(2, len(a))]
            D = n.args[0] if n.op == "len" else None
            k = _raw("key", D, ix) if D is not None else None
            uses = any(index_use(b, ix, k) for b in bodies)
            if op == "lam":
                for b in bodies:
                    g(b, False)
                return
            insensitive = op in ("exists", "sum") or op == "flat" and free
            if D is not None:
                s = is_set(D)
                if s and any(has_term(b, k) for b in bodies):
                    if uses:
                        self.add(t, "elements of a set numbered in the order of its iteration")
                    elif op == "first":
                        self.add(t, "the first element of a set that qualifies")
                    elif not insensitive:
                        self.add(t, "made in the order of iteration of a set")
                taken = any(has_term(b, k) for b in bodies) or any(has_term(b, _raw("idx", D, ix)) for b in bodies)
                g(D, True if s or not taken else insensitive and not uses)
            else:
                g(n, False)
            for b in bodies:
                g(b, op == "flat" and free or op in ("exists", "sum"))
            return
        if op in ("dictof",):
            return g(a[0], free)
        if op == "groupupd":
            g(a[0], free)
            return g(a[2], free and a[1] == "set")
        if op == "idx":
            x = ty(a[0])
            if is_set(a[0]):
                self.add(t, "an element taken from a set")
            g(a[0], bool(x) and x[0] == "dict" or a[0].op in ("dictof", "groupupd", "dictupd", "store"))
            return g(a[1], False)
        if op == "key":
            if is_set(a[0]) and is_const(a[1]):
                self.add(t, "the first element of a set")
            return g(a[0], is_set(a[0]) or not is_const(a[1]))
        if op in ("loopout", "loopexit"):
            if self.mentions(t):
                self.add(t, "a loop over a set", False)
            return
        if op == "ite":
            g(a[0], False)
            g(a[1], free)
            return g(a[2], free)
        if op == "obj":
            return g(a[1], True) if len(a) > 1 else None
        if op in ("fmtv",) or op == "call" and a[0] in ("str", "repr", "format", "json.dumps"):
            for x in a:
                if type(x) is T and is_set(x):
                    self.add(t, "text of a set")
        if op == "call" and a[0] in ("max", "min", "frozenset", "set", "any", "all") and len([x for x in a[1:] if type(x) is T]) == 1:
            return g(a[1], True)
        if op in ("call", "m"):
            name = a[0] if type(a[0]) is str else ""
            for x in a[1:]:
                y = x.args[1] if type(x) is T and x.op == "kw" else x
                if type(y) is T and is_set(y) and name not in INSENSITIVE:
                    if name in ORDERED and not free:
                        self.add(t, "made in the order of iteration of a set")
                    elif name not in ORDERED:
                        self.add(t, "a set passed to %s" % name, False)
        if op in ("store", "dictupd"):
            g(a[0], free)
            for x in a[1:]:
                g(x, free if op == "dictupd" else False)
            return
        for x in a:
            g(x, False)

    def mentions(self, t):
        st, seen = [t], set()
        while st:
            y = st.pop()
            if type(y) is not T or y in seen:
                continue
            seen.add(y)
            if y.op == "iterset" or y.op == "key" and is_set(y.args[0]):
                return True
            st += [b for b in y.args]
        return False


def depends(t, free=False):
    w = Walk()
    w.go(t, free)
    return w.found
