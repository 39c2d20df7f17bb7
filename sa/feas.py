"""Whether conditions on a path may hold together, and of which values a term
may then be.  Only for conditions on *free* terms: those that the program is
given, or computes by operations nothing is known of, so that each may have any
value of its type."""
import itertools

from .terms import *
from .terms import _rank

NOTFREE = {"max", "min", "sum", "abs", "round", "sorted", "set", "any", "all", "len", "list", "tuple", "dict", "int", "str", "float", "bool", "copy.copy", "copy.deepcopy", "deepcopy", "strip", "lstrip", "rstrip", "replace", "split", "join", "lower", "upper"}
_free = {}


def free_term(t):
    if type(t) is not T:
        return True
    r = _free.get(t)
    if r is None:
        op = t.op
        if op in ("c", "sym", "root", "glob", "ix", "ls", "exc", "lbl"):
            r = True
        elif op in ("attr", "lin", "len", "tuple", "list", "kw", "key", "typeof", "arith", "mul", "obj"):
            r = all(free_term(x) for x in t.args)
        elif op == "idx":
            r = t.args[0].op in ("sym", "root", "ls", "attr", "idx", "call", "m", "key") and all(free_term(x) for x in t.args)
        elif op in ("call", "m"):
            r = t.args[0] not in NOTFREE and all(free_arg(x) for x in t.args)
        else:
            r = False
        _free[t] = r
    return r


def free_arg(t):
    return free_term(t) or type(t) is T and t.op in ("strcat", "fmtv", "kw") and all(free_arg(x) for x in t.args)


def free_atom(a):
    if a.op in ("truthy", "isnone", "eq", "ge0", "in"):
        return all(free_term(x) for x in a.args)
    return False


class V:
    """A value, or some value of a kind."""
    __slots__ = ("type", "val", "some", "true")

    def __init__(self, type, val, some, true):
        self.type, self.val, self.some, self.true = type, val, some, true


ALL = [V("none", None, False, False), V("int", 0, False, False), V("float", 0.0, False, False), V("str", "", False, False), V("bool", False, False, False), V("bool", True, False, True),
       V("list", None, True, False), V("dict", None, True, False), V("set", None, True, False), V("tuple", None, True, False),
       V("int", None, True, True), V("float", None, True, True), V("str", None, True, True), V("list", None, True, True), V("dict", None, True, True), V("set", None, True, True), V("tuple", None, True, True), V("inst", None, True, True)]


def kinds(x):
    """Kinds of value of type x."""
    if x is None:
        return ALL
    if type(x) is tuple and x[0] == "opt":
        return [ALL[0]] + kinds(x[1])
    k = x[0] if type(x) is tuple else x
    return [v for v in ALL if v.type == k] or [V(k, None, True, True)]


def values(x, lits):
    """Kinds of value that x may be of, if what is said about it holds."""
    cs = []
    for a, v in lits:
        if a.op == "eq" and a.args[0] is x and is_const(a.args[1]):
            cs.append(cval(a.args[1]))
    out = []
    ks = list(kinds(ty(x)))
    names = {k.type for k in ks}
    for c in cs:
        n = type(c).__name__
        if (n in names) and not any(not k.some and k.type == n and k.val == c for k in ks):
            ks.append(V(n, c, False, bool(c)))
    sized = used(x, lits)
    for k in ks:
        if sized and k.type == "none":
            continue
        if "len" in sized and k.type not in ("str", "list", "dict", "set", "tuple", "inst"):
            continue
        if "item" in sized and not k.true:
            continue
        ok = True
        for a, v in lits:
            if a.op == "truthy" and a.args[0] is x:
                ok = k.true == v
            elif a.op == "isnone" and a.args[0] is x:
                ok = (k.type == "none") == v
            elif a.op == "eq" and a.args[0] is x and is_const(a.args[1]):
                ok = (not k.some and k.val == cval(a.args[1])) == v
            elif a.op == "eq" and typeis(a, x) is not None:
                ok = (k.type == typeis(a, x)) == v
            elif a.op == "in" and a.args[1] is x and v:
                ok = k.true
            if not ok:
                break
        if ok:
            out.append(k)
    return out


_subs = {}


def subterms(t):
    r = _subs.get(t)
    if r is None:
        r, st = set(), [t]
        while st:
            x = st.pop()
            if type(x) is T and x not in r:
                r.add(x)
                st.extend(x.args)
        _subs[t] = r
    return r


def used(x, lits):
    """How the conditions use x."""
    out = set()
    for a, _ in lits:
        for s in subterms(a):
            if s.op == "len" and s.args[0] is x:
                out.add("len")
            elif s.op == "idx" and s.args[0] is x:
                out.add("item")
            elif s.op == "attr" and s.args[0] is x or s.op == "m" and len(s.args) > 1 and s.args[1] is x:
                out.add("use")
            elif s.op == "in" and s.args[1] is x:
                out.add("len")
    return out


def subject(a):
    if a.op in ("truthy", "isnone"):
        return a.args[0]
    if a.op == "eq":
        x, y = a.args
        if x.op == "typeof":
            return x.args[0]
        if y.op == "typeof":
            return y.args[0]
        if is_const(y) and ty(x) != "int":
            return x
    return None


_poss = {}
_keys = {}


def keys_of(a):
    """What an atom is about, and what it uses."""
    r = _keys.get(a)
    if r is None:
        own, use = set(), set()
        s = subject(a)
        if s is not None:
            own.add(s)
        if a.op == "ge0" or a.op == "eq" and s is None:
            for x in a.args:
                own |= set(lin_parts(x)[1])
        if a.op == "eq":
            own |= {x for x in a.args if not is_const(x)}
        if a.op == "in":
            own |= {a.args[1]}
        for s in subterms(a):
            if s.op == "len":
                use |= {s, s.args[0]}
            elif s.op == "idx":
                use |= {s.args[0], s.args[1]} if not is_const(s.args[1]) else {s.args[0]}
                x = ty(s.args[0])
                if x and (x == "str" or x[0] == "list"):
                    use |= set(lin_parts(s.args[1])[1])
                    own.add(_raw_len(s.args[0]))
            elif s.op == "attr":
                use.add(s.args[0])
            elif s.op == "m" and len(s.args) > 1:
                use.add(s.args[1])
        r = _keys[a] = (own, own | use)
    return r


def component(lits):
    """The conditions that have to do with the last one."""
    last, rest = lits[-1], list(lits[:-1])
    out = [last]
    own, use = set(keys_of(last[0])[0]), set(keys_of(last[0])[1])
    ch = True
    while ch:
        ch = False
        for l in list(rest):
            o, u = keys_of(l[0])
            if o & use or u & own:
                rest.remove(l)
                out.append(l)
                own |= o
                use |= u
                ch = True
    return out


def possible(lits):
    """True: may hold; False: cannot; None: not known."""
    lits = list(dict.fromkeys(lits))
    key = frozenset(lits)
    r = _poss.get(key, 0)
    if r == 0:
        r = _poss[key] = _possible(lits)
    return r


def _possible(lits):
    seen = {}
    for a, v in lits:
        if seen.setdefault(a, v) != v:
            return False
    unknown = False
    cons, diseq = [], []
    subjects = []
    order = []
    ss = [s for a, _ in lits for s in subterms(a) if s.op in ("key", "idx")]
    if {s.args[0] for s in ss if s.op == "key"} & {s.args[0] for s in ss if s.op == "idx"}:
        unknown = True  # the same in two ways
    for a, v in lits:
        if a.op == "lt" and all(integer(x, lits) for x in a.args):
            x, y = [lin_parts(z) for z in (a.args if v else a.args[::-1])]
            d = dict(y[1])
            for k, w in x[1].items():
                d[k] = d.get(k, 0) - w
            cons.append((y[0] - x[0] - (1 if v else 0), {k: w for k, w in d.items() if w}))
            continue
        if a.op == "lt" and all(free_term(x) and x.op in ("sym", "attr", "idx") for x in a.args) and not any(
                b.op != "lt" and x in b.args for b, _ in lits for x in a.args):
            order.append(a.args + (True,) if v else a.args[::-1] + (False,))
            continue
        if not free_atom(a):
            unknown = True
            continue
        s = subject(a)
        if s is not None and s not in subjects:
            subjects.append(s)
        if a.op == "ge0":
            c, d = lin_parts(a.args[0])
            if any(ty(k) not in ("int", "bool", None) for k in d):
                unknown = True
                continue
            cons.append((c, d) if v else (-c - 1, {k: -w for k, w in d.items()}))
        elif a.op == "eq" and s is None:
            x, y = a.args
            if ty(x) == "int" and ty(y) == "int":
                c, d = lin_parts(x)
                e, f = lin_parts(y)
                d = dict(d)
                for k, w in f.items():
                    d[k] = d.get(k, 0) - w
                c -= e
                d = {k: w for k, w in d.items() if w}
                if v:
                    cons += [(c, d), (-c, {k: -w for k, w in d.items()})]
                else:
                    diseq.append((c, d))
            elif v:
                # one value under two names
                n = sum(1 for b, _ in lits if b is not a and (x in subterms(b) or y in subterms(b)))
                if n:
                    unknown = True
        elif a.op == "in":
            k, c = a.args
            if is_const(c):
                unknown = True
            if not v:
                for b, _ in lits:
                    for s in subterms(b):
                        if s.op == "idx" and s.args[0] is c and s.args[1] is k:
                            return False
            if c not in subjects:
                subjects.append(c)
    for b, _ in lits:
        for s in subterms(b):
            if s.op in ("attr", "len", "idx") and s.args[0] not in subjects and s.args[0].op in ("attr", "idx", "call", "m", "sym"):
                if ty(s.args[0]) is None or type(ty(s.args[0])) is tuple and ty(s.args[0])[0] == "opt":
                    subjects.append(s.args[0])
    for s in subjects:
        vs = values(s, lits)
        if not vs:
            return False
        l = _raw_len(s)
        if l is not None and any(l in subterms(b) for b, _ in lits):
            if all(k.true for k in vs):
                cons.append((-1, {l: 1}))
            elif not any(k.true for k in vs):
                cons.append((0, {l: -1}))
    if not ordered(order):
        return False
    r = arith(cons, diseq, lits)
    if r is False:
        return False
    return None if unknown or r is None else True


def integer(x, lits):
    return ty(x) == "int" or is_const(x) and type(cval(x)) is int or free_term(x) and any(v and a.op == "eq" and typeis(a, x) == "int" for a, v in lits)


def ordered(order):
    """Whether values may be less (x, y, True) or not greater (x, y, False)."""
    at = {x for o in order for x in o[:2]}
    rel = {(x, y): False for x in at for y in at if x is y}
    for x, y, less in order:
        rel[x, y] = rel.get((x, y), False) or less
    for z, x, y in itertools.product(at, repeat=3):
        if (x, z) in rel and (z, y) in rel:
            rel[x, y] = rel.get((x, y), False) or rel[x, z] or rel[z, y]
    return not any(rel[x, x] for x in at)


def _raw_len(s):
    from .terms import _raw
    return _raw("len", s)


BOUNDS = []  # functions: (variable, all variables) -> what is known to be >= 0


def never_empty(x):
    """Lists that validation keeps from being empty."""
    return x.op == "attr" and (x.args[1], ty(x.args[0])[1].split(".")[-1] if ty(x.args[0]) and ty(x.args[0])[0] == "inst" else None) in NOT_EMPTY


NOT_EMPTY = {("tokens", "TransliterationRule"), ("prev_classes", "OnMatchRule"), ("next_classes", "OnMatchRule")}


def arith(cons, diseq, lits):
    vs = set()
    for c, d in cons + diseq:
        vs |= set(d)
    for b, _ in lits:
        for s in subterms(b):
            if s.op == "idx" and free_term(s):
                x = ty(s.args[0])
                if x and (x == "str" or x[0] == "list"):
                    c, d = lin_parts(s.args[1])
                    l = _raw_len(s.args[0])
                    if not d and c < 0:
                        cons.append((c, {l: 1}))
                    elif not d or all(v > 0 for v in d.values()):
                        cons.append((-1 - c, dict({k: -w for k, w in d.items()}, **{}) | {l: 1}))
                    vs |= {l} | set(d)
    for k in list(vs):
        if k.op in ("len", "ix", "bv"):
            cons.append((-1 if k.op == "len" and never_empty(k.args[0]) else 0, {k: 1}))
        for f in BOUNDS:
            cons += f(k, vs)
    if len(vs) > 24 or len(diseq) > 5:
        return None
    for signs in itertools.product((1, -1), repeat=len(diseq)):
        extra = [(s * c - 1, {k: s * w for k, w in d.items()}) for s, (c, d) in zip(signs, diseq)]
        r = fourier(cons + extra)
        if r is not False:
            return r
    return False


def fourier(cons):
    cons = [(c, {k: w for k, w in d.items() if w}) for c, d in cons]
    while True:
        seen = {}
        for c, d in cons:
            if not d:
                if c < 0:
                    return False
                continue
            key = frozenset(d.items())
            if key not in seen or seen[key] > c:
                seen[key] = c
        cons = [(c, dict(d)) for d, c in seen.items()]
        if not cons:
            return True
        if len(cons) > 250:
            return None
        cnt = {}
        for _, d in cons:
            for k, w in d.items():
                n = cnt.setdefault(k, [0, 0])
                n[w > 0] += 1
        k = min(cnt, key=lambda k: (cnt[k][0] * cnt[k][1], k.id))
        up = [x for x in cons if x[1].get(k, 0) > 0]
        dn = [x for x in cons if x[1].get(k, 0) < 0]
        rest = [x for x in cons if not x[1].get(k, 0)]
        for c, d in up:
            for e, f in dn:
                p, q = d[k], -f[k]
                g = {}
                for t, w in d.items():
                    g[t] = g.get(t, 0) + w * q
                for t, w in f.items():
                    g[t] = g.get(t, 0) + w * p
                rest.append((c * q + e * p, {t: w for t, w in g.items() if w}))
        cons = rest
