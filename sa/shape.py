"""Differences that show for given shapes of the data.

Two terms that are built in different ways may still be told apart when the
collections in them have a known shape: with a list of one element, a mapping
of two entries or no value at all, quantified constructs and loops unfold, and
conditions on what the collections hold come to the surface.  The elements stay
unknown values of their type.  A difference is found where both sides, under
conditions that may hold together, denote what is not the same; nothing is
concluded otherwise.
"""
import itertools
import time

from .terms import *
from .terms import _raw, APART, EXPAND
from .diff import Diff, WIT, DISTINCT, apart, has
from .feas import NOTFREE, free_term, never_empty, possible, subterms
from .pp import pp

OPEN = {"sym", "attr", "idx", "call", "m", "root"}


DEBUG = False


class Over(Exception):
    pass


MANY = {"strip", "lstrip", "rstrip", "lower", "upper", "title", "casefold", "capitalize"}
_bound = {}


def bound(t):
    """Bound variables that occur free in t."""
    r = _bound.get(t)
    if r is None:
        if t.op in ("bv", "lv"):
            r = frozenset([t.args[0]])
        elif t.op in BINDERS:
            h = t.args[0]
            if t.op in ("loopout", "loopexit"):
                outer = [a for a in t.args[4:4 + t.args[2]]]
                inner = [a for a in t.args[4 + t.args[2]:]]
            else:
                outer, inner = [t.args[1]], list(t.args[2:])
            r = frozenset().union(*[bound(a) for a in outer if type(a) is T], *[bound(a) - {h} for a in inner if type(a) is T])
        else:
            r = frozenset().union(*[bound(a) for a in t.args if type(a) is T])
        _bound[t] = r
    return r


def plain(e, val):
    """A literal of a condition."""
    if e.op == "ite" and {e.args[1], e.args[2]} == {TRUE, FALSE}:
        return e.args[0], val == (e.args[1] is TRUE)
    return e, val


def closed(t):
    return not t.fs and not bound(t)


def data(t):
    """Whether t may be any value, whatever else is: what is given, parts of
    it, and what functions of the repository that are not looked into give."""
    if is_const(t):
        return True
    if not free_term(t):
        return False
    return not any(s.op in ("m", "key", "glob") or s.op == "call" and not s.args[0].startswith("=") for s in subterms(t))


def head(x):
    """A function as it is used: with its constant arguments."""
    if x.op == "call" and x.args[0].startswith("="):
        return x.args[0]
    return (x.args[0],) + tuple((k.args[0], k.args[1] if is_const(k.args[1]) else None) if k.op == "kw" else k if is_const(k) and type(cval(k)) is not int else None if not is_const(k) or cval(k) else k for k in x.args[1:] if type(k) is T)


def names(*ts):
    return {head(x) for t in ts for x in subterms(t) if x.op in ("call", "m")}


_elems = {}


def elem(c, i, what, x):
    """The unknown i-th element (key, value) of the collection c."""
    k = (c, i, what)
    r = _elems.get(k)
    if r is None:
        r = _elems[k] = fresh("sym", x)
        if what == "key":
            APART[r] = frozenset([c])
    return r


def shaped(c, n):
    """c with n elements; n None: no value."""
    x = ty(c)
    if n is None:
        return NONE
    if x[0] == "opt":
        x = x[1]
    if x[0] == "inst":
        return elem(c, 0, "inst", x)
    if x[0] == "list":
        return lst(*[elem(c, i, "item", x[1]) for i in range(n)])
    if x[0] == "set":
        return setof(lst(*[elem(c, i, "key", x[1]) for i in range(n)]))
    return dictof(lst(*[tup(elem(c, i, "key", x[1]), elem(c, i, "value", x[2])) for i in range(n)]))


_cands = {}


def collections(t):
    """Closed subterms of t that are collections nothing is known of."""
    r = _cands.get(t)
    if r is None:
        r = set()
        named = set()
        for s in subterms(t):
            if s.op == "idx" and is_const(s.args[1]):
                named.add(s.args[0])
            elif s.op == "in" and is_const(s.args[0]):
                named.add(s.args[1])
        for s in subterms(t):
            if s.op not in OPEN or s.fs or bound(s):
                continue
            x = ty(s)
            if type(x) is not tuple or s in SHAPES:
                continue
            y = x[1] if x[0] == "opt" else x
            if type(y) is not tuple or y[0] not in ("list", "dict", "set") and not (x[0] == "opt" and y[0] == "inst") or len(y) == 4:
                continue
            if y[0] == "dict" and s in named:
                continue
            b = s
            while b.op in ("attr", "idx"):
                b = b.args[0]
            if b.op in OPEN:
                r.add(s)
        r = _cands[t] = frozenset(r)
    return r


def candidates(ts, shared):
    cs = set().union(*[collections(t) for t in ts])
    cs = {c for c in cs if c.op not in ("call", "m") or c in shared}
    return sorted(cs, key=lambda s: (s.sz, s.id))


def unfold(t):
    syms, inits, kind, nexts, out, label = open_loop(t)
    m = dict(zip(syms, inits))
    new = [subst(x, m) for x in nexts]
    res = None if out is None else subst(out, m)

    def go(k):
        if k.op == "ite":
            return ite(cond_atom(k.args[0]), go(k.args[1]), go(k.args[2]))
        if k is lbl(label):
            return TRUE if out is None else res
        if k is CONT:
            return mk_loop(syms, new, kind, nexts, out, label)
        return FALSE if out is None else opaque("left otherwise")

    return go(subst(kind, m))


class Search:
    def __init__(self, vocabulary, until, plan, shared, found):
        self.vocabulary = vocabulary
        self.until = until
        self.plan = plan
        self.shared = shared
        self.found = found
        self.steps = self.leaves = 0
        self.said = []

    def shape(self, cond, a, b, lits, env):
        """With the collections in them of the sizes planned."""
        for _ in range(8):
            cond, a, b = (self.apply(env, t) for t in (cond, a, b))
            cs = candidates([cond, a, b], self.shared)
            if not cs:
                break
            m = {}
            for c in cs:
                if c not in self.found and len(self.found) < 40:
                    self.found.append(c)
                n = self.plan.get(c, 1)
                if n == 0 and never_empty(c):
                    n = 1
                m[c] = shaped(c, n)
                self.said.append((c, n))
            r = self.put(m, cond, a, b, lits, env)
            if r is None:
                return FALSE, a, b, lits, env
            cond, a, b, lits, env = r
            cond, a, b = ungroup([cond, a, b])
        return cond, a, b, lits, env

    def put(self, m, cond, a, b, lits, env):
        """Everything with terms replaced, now and when they turn up again."""
        e2 = dict(m)
        for k, v in env.items():
            k, v = subst(k, m), subst(v, m)
            if e2.setdefault(k, v) is not v:
                return None  # two contents of one collection
        k, out = TRUE, []
        for p, v in lits:
            q = self.apply(e2, cond_atom(p))
            if q is cond_atom(p):
                out.append((p, v))
            else:
                k = and_(k, q if v else not_(q))
        self.shared = {subst(s, m) for s in self.shared}
        return and_(k, self.apply(e2, cond)), self.apply(e2, a), self.apply(e2, b), out, e2

    def apply(self, env, t):
        if env:
            for _ in range(5):
                r = subst(t, env)
                if r is t:
                    break
                t = r
        return t

    def run(self, cond, a, b, lits, env, loops):
        """Conditions under which a and b differ, or None."""
        self.steps += 1
        if time.time() > self.until or self.steps > 400:
            raise Over
        if a is b or cond is FALSE:
            self.leaves += 1
            return None
        n = len(self.said)
        keep = self.shared
        try:
            return self.go(*self.shape(cond, a, b, lits, env), loops)
        finally:
            self.shared = keep
            if self.ok is None:
                del self.said[n:]

    ok = None
    cut = False  # whether loops were not followed to their end

    def go(self, cond, a, b, lits, env, loops):
        if a is b or cond is FALSE:
            self.leaves += 1
            return None
        if cond is TRUE:
            self.env = env
            e = self.apart(a, b, lits)
            if DEBUG > 1:
                print("      apart", self.steps, e, e is not None and possible(lits + e))
                if DEBUG > 3:
                    print(pp(a), "\n/////////\n", pp(b), "\n--\n", lits)
            if e is not None and self.holds(lits + e):
                self.ok = True
                return lits + e, a, b
        at = self.choose(cond, a, b, lits)
        if at is None:
            if DEBUG > 2:
                print("      stuck", pp(cond), "\n", pp(a), "\n/////\n", pp(b), "\n", lits)
            return self.loop(cond, a, b, lits, env, loops)
        for s in subterms(at):
            q = self.pending(s, lits)
            if q is not None:
                at = q
                break
        if DEBUG > 1:
            print("      ", self.steps, len(lits), loops, " ".join(pp(at).split())[:150])
        if has(at, {"loopout", "loopexit"}):
            r = self.loop(cond, a, b, lits, env, loops, at)
            if r is not False:
                return r
            return None
        if has(at, {"opaque"}) or any(self.undefined(s, lits) for s in subterms(at)):
            return None
        for val in (True, False):
            l2 = lits + [(at, val)]
            m = self.equation(at) if val else None
            if m is None and possible(l2) is False:
                continue
            if DEBUG > 1 and at.op == "eq":
                print("        ", val, pp(at), m and [(pp(k), pp(v)) for k, v in m.items()], [ty(z) for z in at.args], [z in APART for z in at.args], len(l2))
            c, x, y = (assume(cof(t, at, val), at, val) for t in (cond, a, b)) if m is None else (cof(t, at, val) for t in (cond, a, b))
            if x is y or c is FALSE:
                continue
            e2 = env
            if m is not None:
                r = self.put(m, c, x, y, lits, env)
                if r is None:
                    continue
                c, x, y, l2, e2 = r
            keep = self.shared
            r = self.run(c, x, y, l2, e2, loops)
            self.shared = keep
            if r is not None:
                return r
        return None

    def equation(self, at):
        """What an equation says of a value."""
        if at.op != "eq":
            return None
        p, q = at.args
        if p in APART and q in APART:
            z = fresh("sym", ty(p) or ty(q))
            APART[z] = APART[p] | APART[q]
            return {p: z, q: z}
        for x, y in ((p, q), (q, p)):
            if x.op not in OPEN or not free_term(x) or x in subterms(y) or x in APART:
                continue
            if is_const(y):
                k = ty(x)[1] if ty(x) and ty(x)[0] == "opt" else ty(x)
                if k is None or k == type(cval(y)).__name__:
                    return {x: y}
            elif x.op == "sym" and ty(x) in (None, ty(y)) and (y.op == "sym" or free_term(y)):
                return {x: y}
            elif x.op in ("call", "m") and y.op == "sym" and ty(x) in (None, ty(y)):
                return {x: y}
        # the same of two values
        for x, y in ((p, q), (q, p)):
            if x.op == "lin" and len(x.args) == 5 and x.args[0] == 0 and x.args[2] == -x.args[4] and y is ZERO:
                p, q = x.args[1], x.args[3]
        d = differing(p, q)
        if len(d) == 1:
            x, y = next(iter(d))
            if (x, y) != (p, q):
                e = eq(x, y)
                return self.equation(e) if e.op == "eq" else self.equation(cond_atom(e.args[0])) if e.op == "ite" and e.args[1:] == (TRUE, FALSE) else None
        return None

    def loop(self, cond, a, b, lits, env, loops, within=None):
        if loops <= 0:
            self.cut = True
            return False if within is not None else None
        ts = [within] if within is not None else [cond, a, b]
        ls = {s for t in ts for s in subterms(t) if s.op in ("loopout", "loopexit") and closed(s)}
        # the innermost first
        ls = [s for s in ls if not any(z is not s and z in ls for z in subterms(s))]
        if not ls:
            return None
        l = min(ls, key=lambda s: (s.sz, s.id))
        m = {l: unfold(l)}
        return self.run(subst(cond, m), subst(a, m), subst(b, m), lits, env, loops - 1)

    def choose(self, cond, a, b, lits):
        """An atom to split on."""
        best = None
        for ts in ([cond] if cond is not TRUE else [], [a, b]):
            A = [x for t in ts for x in atoms_of(t)]
            A = [x for x in A if closed(x)]
            if A:
                return min(A, key=self.cost)
        for t in (a, b):
            for s in subterms(t):
                if s.op == "ite" and closed(s.args[0]):
                    k = self.cost(s.args[0])
                    if best is None or k < best[0]:
                        best = (k, s.args[0])
        if best is None:
            for t in (cond, a, b):
                for s in subterms(t):
                    at = self.pending(s, lits)
                    if at is not None:
                        return at
        return best[1] if best else None

    def undefined(self, s, lits):
        """Whether there is no such element."""
        if s.op != "idx" or s.args[0].op not in ("dictof", "list"):
            return False
        es = self.alternatives(s)
        return bool(es is not None and all(e is FALSE or e.op == "ite" and (e.args[0], False) in lits and e.args[2] is FALSE for e in es))

    def cost(self, at):
        return (has(at, {"loopout", "loopexit", "opaque"}), at.sz, at.id)

    def alternatives(self, s):
        c, k = s.args
        if c.op == "dictof" and c.args[0].op == "list":
            return [eq(p.args[0], k) for p in c.args[0].args if p.op == "tuple"]
        if c.op == "store":
            return [eq(c.args[1], k)]
        if c.op == "list" and ty(k) in ("int", None, ("opt", "int")):
            return [eq(k, const(i)) for i in list(range(len(c.args))) + list(range(-len(c.args), 0))] if not is_const(k) else []
        return None

    def pending(self, s, lits):
        """Which element is meant."""
        if s.op != "idx" or not closed(s):
            return None
        for e in self.alternatives(s) or ():
            if e.op == "ite":
                A = [x for x in atoms_of(e) if closed(x) and not any(x is l[0] for l in lits)]
                if A:
                    return A[0]
        return None

    def holds(self, lits):
        # texts of values of which nothing else is asked
        fs = {s for l, v in lits for s in subterms(l) if s.op == "fmtv" and len(s.args) == 1 and s.args[0].op == "sym" and ty(s.args[0]) is None}
        if fs:
            m = {f: fresh("sym", "str") for f in fs}
            q = [plain(subst(l, m), v) for l, v in lits]
            if not any(f.args[0] in subterms(l) for f in fs for l, _ in q) and all(l.op in ATOMS for l, _ in q):
                lits = q
        for at, v in lits:
            # different, but the same when stripped
            if v and at.op == "eq" and all(x.op == "m" and x.args[0] in MANY and len(x.args) == 2 for x in at.args) and at.args[0].args[0] == at.args[1].args[0]:
                x, y = (z.args[1] for z in at.args)
                rest = [l for l in lits if l[0] is not at]
                e = plain(eq(x, y), False)
                if e in rest and free_term(x) and free_term(y) and not any(z in subterms(l[0]) for l in rest for z in (x, y) if l != e):
                    lits = rest
        if any(n not in self.vocabulary for a, _ in lits for n in names(a)):
            return False
        return possible(lits) is True

    # what is not the same
    def apart(self, a, b, lits, depth=0):
        """Further conditions under which a and b are not the same, or None."""
        if a is b or depth > 12:
            return None
        sub = lambda x, y: self.apart(x, y, lits, depth + 1)
        if is_const(a) and is_const(b):
            return [] if cval(a) != cval(b) or type(cval(a)) is not type(cval(b)) and not {type(cval(a)), type(cval(b))} <= {int, float} else None
        if a.op in ("c", "lbl", "exc") and b.op in ("c", "lbl", "exc"):
            return []
        if "ite" in (a.op, b.op) or "opaque" in (a.op, b.op):
            return None
        for x, y in ((a, b), (b, a)):
            if x is NONE:
                if nonnull(y):
                    return []
                e = isnone(y)
                return self.lit(e, False) if data(y) else ([] if e is FALSE else None)
        if apart(ty(a), ty(b)):
            return []
        op = a.op if a.op == b.op else None
        for x, y in ((a, b), (b, a)):
            if x.op in ("list", "cat") and (y.op in ("list", "cat") or y in seq_parts(x)):
                r = self.seq(seq_parts(x), seq_parts(y) if y.op in ("list", "cat") else [y], sub)
                if r is not None:
                    return r
        if op == "tuple" or op == "obj":
            if op == "tuple" and len(a.args) != len(b.args) or op == "obj" and a.args[0] != b.args[0]:
                return []
            if op == "obj" and a.args[1] != b.args[1]:
                p, q = dict(zip(a.args[1], a.args[2:])), dict(zip(b.args[1], b.args[2:]))
                return self.any(sub(p[k], q[k]) for k in p if k in q)
            return self.any(sub(x, y) for x, y in zip(a.args, b.args) if type(x) is T)
        if op == "dictof":
            x, y = a.args[0], b.args[0]
            if x.op == y.op == "list" and all(p.op == "tuple" for p in x.args + y.args):
                p, q = {z.args[0]: z.args[1] for z in x.args}, {z.args[0]: z.args[1] for z in y.args}
                for u, v in ((p, q), (q, p)):
                    for k in u:
                        if all(eq(k, l) is FALSE for l in v):
                            return []
                for u in (p, q):
                    if any(eq(k, l) is not FALSE for k, l in itertools.combinations(u, 2)):
                        return None
                return self.any(sub(p[k], q[k]) for k in p if k in q)
            return None
        if "ostore" in (a.op, b.op):
            def fields(t):
                d = {}
                while t.op == "ostore":
                    d.setdefault(t.args[1], t.args[2])
                    t = t.args[0]
                return t, d
            (t, p), (u, q) = fields(a), fields(b)
            if t is u and t.op in ("sym", "root"):
                return self.any(sub(*[d[k] if k in d else self.apply(self.env, attr(t, k)) for d in (p, q)]) for k in dict.fromkeys([*p, *q]))
            return None
        if {a.op, b.op} <= {"store", "dictof"}:
            def pairs(t):
                d = {}
                while t.op == "store":
                    d.setdefault(t.args[1], t.args[2])
                    t = t.args[0]
                if t.op == "dictof" and t.args[0].op == "list" and all(p.op == "tuple" for p in t.args[0].args):
                    return {**{p.args[0]: p.args[1] for p in t.args[0].args}, **d}
                return None
            p, q = pairs(a), pairs(b)
            if p is not None and q is not None:
                for u, v in ((p, q), (q, p)):
                    for k in u:
                        if all(eq(k, l) is FALSE or (eq(k, l), False) in lits for l in v):
                            return []
        if op == "store":
            def written(t):
                d = {}
                while t.op == "store" and is_const(t.args[1]):
                    d.setdefault(t.args[1], t.args[2])
                    t = t.args[0]
                return t, d
            (t, p), (u, q) = written(a), written(b)
            return self.any(sub(p[k], q[k]) for k in p if k in q) if t is u else None
        if op == "setof":
            x, y = a.args[0], b.args[0]
            if x.op == y.op == "list":
                for u, v in ((x, y), (y, x)):
                    for k in u.args:
                        if all(eq(k, l) is FALSE for l in v.args):
                            return []
                x, y = [k for k in x.args if k not in y.args], [k for k in y.args if k not in x.args]
                if len(x) == len(y) == 1:
                    return sub(x[0], y[0])
            return None
        if op == "strcat" or "strcat" in (a.op, b.op):
            return self.text(a, b, sub)
        if op in ("call", "m"):
            if a.args[0] != b.args[0]:
                if any(a.args[0] in s and b.args[0] in s for s in DISTINCT) and a.args[1:] == b.args[1:]:
                    return []
                return None
            if a.args[0] in NOTFREE or len(a.args) != len(b.args):
                return None
            own = op == "call" and a.args[0].startswith("=")
            ps = []
            for x, y in zip(a.args[1:], b.args[1:]):
                if type(x) is not T or type(y) is not T or (x.op == "kw") != (y.op == "kw"):
                    return None
                if x.op == "kw":
                    if x.args[0] != y.args[0]:
                        return None
                    x, y = x.args[1], y.args[1]
                # texts may mean the same to other functions (patterns, encodings)
                if own or not any(is_const(k) and type(cval(k)) is not int or has(k, {"lam"}) for k in (x, y)):
                    ps.append((x, y))
            return self.any(sub(x, y) for x, y in ps)
        if op in ("fmtv",):
            return sub(a.args[0], b.args[0])
        for x, y in ((a, b), (b, a)):
            if x.op == "m" and x.args[0] in ("strip", "lstrip", "rstrip", "lower", "upper", "title") and len(x.args) > 1 and x.args[1] is y and y.op in ("sym", "attr", "idx"):
                if all(p.op == "truthy" or y not in subterms(p) for p, _ in lits):
                    return [(_raw("truthy", y), True)]
        if data(a) and data(b):
            return self.lit(eq(a, b), False)
        return None

    def lit(self, e, val):
        if e is (TRUE if val else FALSE):
            return []
        if e.op == "ite" and {e.args[1], e.args[2]} == {TRUE, FALSE}:
            return [(e.args[0], val == (e.args[1] is TRUE))]
        return None

    def any(self, it):
        for r in it:
            if r is not None:
                return r
        return None

    def seq(self, xs, ys, sub):
        def items(ps):
            return [("e", e) if p.op == "list" else ("p", p) for p in ps for e in (p.args if p.op == "list" else (p,))]
        x, y = items(xs), items(ys)
        while x and y and x[0] == y[0]:
            x, y = x[1:], y[1:]
        while x and y and x[-1] == y[-1]:
            x, y = x[:-1], y[:-1]
        if not x or not y:
            z = x or y
            if any(k == "e" for k, _ in z):
                return []
            return None
        if all(k == "e" for k, _ in x + y):
            if len(x) != len(y):
                return []
            return self.any(sub(p, q) for (_, p), (_, q) in zip(x, y))
        if x[0][0] == y[0][0] == "e":
            r = sub(x[0][1], y[0][1])
            if r is not None:
                return r
        if x[-1][0] == y[-1][0] == "e":
            r = sub(x[-1][1], y[-1][1])
            if r is not None:
                return r
        for p, q in ((x, y), (y, x)):
            # more elements than the other can have
            if all(k == "e" for k, _ in p) and sum(k == "e" for k, _ in q) > len(p):
                return []
        return None

    def text(self, a, b, sub):
        x = list(a.args) if a.op == "strcat" else [a]
        y = list(b.args) if b.op == "strcat" else [b]
        x, y = [p for p in x if p is not EMPTY_STR], [p for p in y if p is not EMPTY_STR]
        while x and y and x[0] is y[0]:
            x, y = x[1:], y[1:]
        while x and y and x[-1] is y[-1]:
            x, y = x[:-1], y[:-1]
        if x and y and is_const(x[0]) and is_const(y[0]):
            p, q = cval(x[0]), cval(y[0])
            if type(p) is type(q) is str:
                if not p.startswith(q) and not q.startswith(p):
                    return []
                n = min(len(p), len(q))
                x[0], y[0] = const(p[n:]), const(q[n:])
                x, y = [p for p in x if p is not EMPTY_STR], [p for p in y if p is not EMPTY_STR]
        if x and y and is_const(x[-1]) and is_const(y[-1]):
            p, q = cval(x[-1]), cval(y[-1])
            if type(p) is type(q) is str and not p.endswith(q) and not q.endswith(p):
                return []
        if not x or not y:
            z = x or y
            if any(is_const(p) for p in z):
                return []
            for p in z:
                if data(p):
                    return self.lit(truthy(p), True)
            return None
        if len(x) == len(y) == 1:
            return sub(x[0], y[0])
        return None


def grouped(t):
    """A mapping of groups, for pairs that are known."""
    d, how, pairs = t.args
    for p in pairs.args:
        k, x = p.args
        c = in_(k, d)
        if how == "list":
            d = store(d, k, cat(ite(c, idx(d, k), lst()), x))
        else:
            d = store(d, k, setupd(ite(c, idx(d, k), setof(lst())), x))
    return d


def ungroup(ts):
    for _ in range(20):
        m = {s: grouped(s) for t in ts for s in subterms(t) if s.op == "groupupd" and closed(s) and s.args[2].op == "list" and all(p.op == "tuple" for p in s.args[2].args) and not has(s.args[0], {"groupupd"})}
        if not m:
            break
        ts = [subst(t, m) for t in ts]
    return ts


def sizes(c):
    x = ty(c)[1] if ty(c)[0] == "opt" else ty(c)
    out = [2, 3, 0, 4] if x[0] == "list" else [2, 0] if x[0] != "inst" else []
    return out + ([None] if ty(c)[0] == "opt" else [])


class Plans:
    """Sizes of collections to try: the plain ones, then others of some that
    turn up, then more where that made a difference."""

    def __init__(self):
        self.queue = [(0, 0, {})]
        self.seen = {frozenset()}
        self.n = 0
        self.trivial = []

    def next(self):
        if not self.queue:
            if not self.trivial:
                return None
            self.expand(self.trivial.pop(0), 8)
            return self.next()
        self.queue.sort(key=lambda q: q[:2])
        return self.queue.pop(0)[2]

    def done(self, plan, found, shows):
        if shows or not plan:
            self.expand(plan, 1, found)
        else:
            self.trivial.append((plan, list(found)))

    def expand(self, plan, weight, found=None):
        if found is None:
            plan, found = plan
        if len(plan) > 3:
            return
        for c in found:
            if c in plan:
                continue
            for i, n in enumerate(sizes(c)):
                q = dict(plan)
                q[c] = n
                k = frozenset(q.items())
                if k not in self.seen:
                    self.seen.add(k)
                    self.n += 1
                    self.queue.append((weight + len(plan) + i + (len(plan) if plan else 0), self.n, q))


def differing(p, q, depth=0):
    """The parts in which two terms differ."""
    if p is q:
        return set()
    if type(p) is T and type(q) is T and p.op == q.op and p.op in ("idx", "attr", "call", "m", "key", "tuple", "list") and len(p.args) == len(q.args) and depth < 6:
        if all(x is y or x == y or type(x) is T and type(y) is T for x, y in zip(p.args, q.args)):
            return set().union(*[differing(x, y, depth + 1) for x, y in zip(p.args, q.args) if type(x) is T])
    return {(p, q)}


def places(a, b, care=TRUE, depth=0):
    """Places in which a and b differ such that they differ if these do."""
    if a is b or care is FALSE:
        return []
    op = a.op if a.op == b.op else None
    out = None
    if depth > 30:
        pass
    elif op == "ite" and a.args[0] is b.args[0]:
        c = cond_atom(a.args[0])
        out = [(x, y, and_(care, k)) for x, y, k in ((a.args[1], b.args[1], c), (a.args[2], b.args[2], not_(c)))]
    elif op in ("tuple", "list") and len(a.args) == len(b.args):
        out = [(x, y, care) for x, y in zip(a.args, b.args)]
    elif op == "obj" and a.args[:2] == b.args[:2]:
        out = [(x, y, care) for x, y in zip(a.args[2:], b.args[2:])]
    elif op in ("astuple", "aslist"):
        out = [(a.args[0], b.args[0], care)]
    elif op == "store" and a.args[0] is b.args[0] and a.args[1] is b.args[1]:
        out = [(a.args[2], b.args[2], care)]
    elif op == "cat" and len(a.args) == len(b.args) and sum(x is not y for x, y in zip(a.args, b.args)) == 1:
        out = [(x, y, care) for x, y in zip(a.args, b.args)]
    elif op == "dictof":
        x, y = a.args[0], b.args[0]
        if x.op == y.op == "list" and all(p.op == q.op == "tuple" and p.args[0] is q.args[0] and is_const(p.args[0]) for p, q in zip(x.args, y.args)) and len(x.args) == len(y.args):
            out = [(p.args[1], q.args[1], care) for p, q in zip(x.args, y.args)]
        elif x.op == y.op == "flat" and x.args[1] is y.args[1]:
            i = fresh_ix()
            p, q = open1(x, i), open1(y, i)
            if p.op == q.op == "list" and len(p.args) == len(q.args) == 1 and p.args[0].op == q.args[0].op == "tuple" and p.args[0].args[0] is q.args[0].args[0] and all_distinct(p, i):
                out = [(open1(x, ZERO), open1(y, ZERO), and_(care, ge0(sub(x.args[1], ONE))))]
    elif op == "flat" and a.args[1] is b.args[1]:
        i = fresh_ix()
        if length(open1(a, i)) is length(open1(b, i)):
            out = [(open1(a, ZERO), open1(b, ZERO), and_(care, ge0(sub(a.args[1], ONE))))]
    if out is None:
        return [(a, b, care)]
    return [r for x, y, c in out for r in places(x, y, c, depth + 1)]


def refute(a, b, care=TRUE, seconds=20):
    """A Diff if for some shape of the data a and b differ where care holds."""
    t0 = time.time()
    EXPAND[0] = True  # (in a process of its own)
    ps = places(a, b, care)
    if 0 < len(ps) <= 6 and ps[0][:2] != (a, b):
        if DEBUG:
            print("  PLACES", [(p[0].sz, p[1].sz) for p in ps])
        for x, y, c in sorted(ps, key=lambda p: p[0].sz + p[1].sz):
            r = refute_at(x, y, c, seconds / 2 / len(ps))
            if r is not None:
                return r
    return refute_at(a, b, care, seconds - (time.time() - t0))


def refute_at(a, b, care, seconds):
    t0 = time.time()
    if has(a, {"ls", "ix"}) or has(b, {"ls", "ix"}):
        return None
    shared = {s for s in subterms(a) & subterms(b) if s.op in ("call", "m")}
    vocabulary = names(a) & names(b) | names(care)
    P = Plans()
    while time.time() - t0 < seconds:
        plan = P.next()
        if plan is None:
            break
        found = []
        for loops in (3, 6, 10):
            S = Search(vocabulary, t0 + seconds, plan, shared, found)
            r = why = None
            try:
                r = S.run(care, a, b, [], {}, loops)
            except (Over, RecursionError) as e:
                why = type(e).__name__
            if r or not S.cut:
                break
        P.done(plan, found, S.steps > 1)
        if DEBUG:
            print("    plan", [(n, pp(k)[:60]) for k, n in plan.items()], why, "steps", S.steps, "leaves", S.leaves, round(time.time() - t0, 1))
        if r:
            lits, p, q = r
            where = ["%s: %s of %s" % (i, "nothing" if n is None else n, pp(c)) for i, (c, n) in enumerate(S.said) if n != 1]
            where += [("" if v else "not ") + pp(cond_atom(at)) for at, v in lits]
            return Diff(WIT, p, q, "different for given data", " and ".join(" ".join(w.split())[:100] for w in where[:8]))
    return None
