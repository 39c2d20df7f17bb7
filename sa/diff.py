"""Where and how two terms differ.

A difference is *definite* when the two sides are in the same place of the
same structure and denote different things there (another constant, another
part of the same object, a missing effect, the other outcome of a condition).
Otherwise it is *structural*: the two sides are built differently, and may
still be the same; nothing is concluded from it.
"""
import itertools

from .terms import *
from .terms import _raw, _rank
from .feas import NOTFREE, component, subterms, free_atom, free_term, possible, values
from .pp import pp
from .regex import same_language

# WIT: a value of what is given was found for which the two differ
DEF, STR_, WIT = "definite", "structural", "witnessed"


class Diff:
    __slots__ = ("kind", "a", "b", "why", "path")

    def __init__(self, kind, a, b, why, path):
        self.kind, self.a, self.b, self.why, self.path = kind, a, b, why, path

    def text(self, n=300):
        def s(x):
            t = pp(x) if type(x) is T else repr(x)
            t = " ".join(t.split())
            return t if len(t) <= n else t[:n] + "..."
        return "%s: found %s; required %s%s" % (self.why, s(self.a), s(self.b), "  [%s]" % self.path if self.path else "")


# functions that are never the same, whatever their arguments
DISTINCT = [
    {"match", "fullmatch", "search", "findall"},
    {"max", "min"},
    {"math.log2", "math.log", "math.log10", "math.log1p"},
    {"yaml.safe_load", "yaml.load", "yaml.unsafe_load", "yaml.full_load"},
    {"startswith", "endswith"},
    {"upper", "lower", "title", "strip", "lstrip", "rstrip"},
    {"start", "end"},
    {"unicodedata.lookup", "group"},
    {"int", "float", "str", "bool", "repr"},
    {"json.dumps", "repr", "str", "yaml.dump"},
    {"copy.copy", "copy.deepcopy"},
    {"re.escape", "replace", "upper", "lower", "strip", "lstrip", "rstrip", "title"},
]
INJECTIVE = {"tuple", "list", "kw", "ostore", "astuple", "aslist", "obj", "dictof"}
LOOPY = {"loopout", "loopexit", "opaque"}


def has(t, ops, seen=None):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if type(x) is not T or x in seen:
            continue
        seen.add(x)
        if x.op in ops:
            return True
        st.extend(x.args)
    return False


class V:
    def __init__(self, v):
        self.type, self.val, self.some, self.true = {"NoneType": "none"}.get(type(v).__name__, type(v).__name__), v, False, bool(v)


def about(x, lits):
    """Whether a condition assumed is about the value of x."""
    return not is_const(x) and any(a.op in ("truthy", "isnone", "eq") and x in a.args or a.op == "eq" and any(type(y) is T and y.op == "typeof" and y.args[0] is x for y in a.args) for a, _ in lits)


def promote(ds):
    if ds and all(d.kind != STR_ for d in ds):
        return [d if d.kind == WIT else Diff(WIT, d.a, d.b, d.why, d.path) for d in ds]
    return ds


def demote(ds):
    return [Diff(DEF, d.a, d.b, d.why, d.path) if d.kind == WIT else d for d in ds]


class Differ:
    def __init__(self, limit=40000):
        self.memo = {}
        self.steps = 0
        self.limit = limit
        self.lits = []  # what is assumed on the way
        self.skips = 0
        self.nested = False  # within a condition that only one side has

    def case(self, at, val, a, b, path):
        return self.assuming([(at, val)], a, b, path)

    def assuming(self, lits, a, b, path):
        n = len(self.lits)
        self.lits += lits
        try:
            # what was assumed before may hold
            ok = possible(component(self.lits)) if len(lits) == 1 else possible(self.lits)
            if ok is False or not feasible(self.lits):
                self.skips += 1
                return []
            ds = self.diff(a, b, path)
            if any(d.kind == DEF for d in ds) and all(d.kind != STR_ for d in ds) and possible(self.lits):
                return promote(ds)
            return ds
        finally:
            del self.lits[n:]

    def diff(self, a, b, path=""):
        if a is b:
            return []
        key = (a, b, frozenset(l for l in self.lits if l[0].mask & (a.mask | b.mask))) if self.lits else (a, b)
        r = self.memo.get(key)
        if r is not None:
            return r
        self.memo[key] = []
        self.steps += 1
        if self.steps > self.limit:
            return [Diff(STR_, a, b, "too different", path)]
        n = self.skips
        r = self._diff(a, b, path)
        if self.skips == n:
            self.memo[key] = r
        else:
            del self.memo[key]
        return r

    def _diff(self, a, b, path):
        if a.op == "ite" or b.op == "ite":
            return self.cases(a, b, path)
        if self.lits:
            r = self.known(a, b, path)
            if r is not None:
                return r
        f = getattr(self, "d_" + a.op, None) if a.op == b.op else None
        if f is not None:
            r = f(a, b, path)
            if r is not None:
                return r
        if a.op == "opaque" or b.op == "opaque":
            return [Diff(STR_, a, b, "not analysed", path)]
        if a.op == b.op:
            return self.same(a, b, path)
        return self.other(a, b, path)

    def known(self, a, b, path):
        """What the conditions assumed say of the values of terms."""
        va = values(a, self.lits) if about(a, self.lits) else None
        vb = values(b, self.lits) if about(b, self.lits) else None
        if va is None and vb is None:
            return None
        if is_const(a):
            va = [V(cval(a))]
        if is_const(b):
            vb = [V(cval(b))]
        if va is None or vb is None:
            return None
        x = {(v.type, v.val) if not v.some else (v.type, None, v.true) for v in va}
        y = {(v.type, v.val) if not v.some else (v.type, None, v.true) for v in vb}
        num = {"int", "float", "bool"}
        if len(x) == len(y) == 1 and not va[0].some and not vb[0].some and (x == y or va[0].type in num and vb[0].type in num and va[0].val == vb[0].val):
            return []
        if all(not v.some and v.type in num and v.val == 0 for v in va + vb):
            return []
        if x & y:
            return [Diff(STR_, a, b, "may be the same", path)]
        return None

    # conditions: by cases of an atom of both
    def cases(self, a, b, path):
        A, B = atoms_of(a), atoms_of(b)
        common = [x for x in A if x in set(B)]
        if common:
            at = min(common, key=_rank)
            return self.split(at, a, b, path)
        r = self.ranges(a, b, A, B, path)
        if r is not None:
            return r
        F = [x for x in A + B if free_atom(x)]
        if not self.nested and F:
            return self.split(min(F, key=_rank), a, b, path)
        if not self.nested and (not A or not B):
            F = [x for x in A + B if x.op == "exists" and free(x)]
            if F:
                return self.split(min(F, key=_rank), a, b, path)
        r = self.paired(a, b, A, B, path)
        if r is not None:
            return demote(r)
        for x, y, X, extra in ((a, b, A, True), (b, a, B, False)):
            r = self.onesided(x, y, X, extra, path)
            if r is not None:
                return r
        return [Diff(STR_, a, b, "different conditions", path)]

    def split(self, at, a, b, path):
        a1, a0 = cof(a, at, True), cof(a, at, False)
        b1, b0 = assume(cof(b, at, True), at, True), assume(cof(b, at, False), at, False)
        a1, a0 = assume(a1, at, True), assume(a0, at, False)
        s = show(at, 0, 5)
        s = s if len(s) < 80 else s[:77] + "..."
        r1 = self.case(at, True, a1, b1, (path + " & " if path else "") + s)
        r0 = self.case(at, False, a0, b0, (path + " & " if path else "") + "not " + s)
        return r1 + r0

    def ranges(self, a, b, A, B, path):
        """Cases of the value of a number that both sides compare with others."""
        groups = {}
        for side, l in ((0, A), (1, B)):
            for at in l:
                r = interval(at)
                if r is not None:
                    groups.setdefault(r[0], ([], []))[side].append((at, r))
        for base, (x, y) in groups.items():
            if not x or not y:
                continue
            ats = dict(x + y)
            cuts = set()
            for lo, hi, neg in (r[1:] for r in ats.values()):
                if lo is not None:
                    cuts.add(lo)
                if hi is not None:
                    cuts.add(hi + 1)
            low = 0 if base[0] == "len" else None
            cuts = sorted(c for c in cuts if low is None or c > low)
            out = []
            b0 = [low] + cuts
            for i, lo in enumerate(b0):
                hi = b0[i + 1] - 1 if i + 1 < len(b0) else None
                p, q = a, b
                lits = []
                for at, (_, l, h, neg) in ats.items():
                    inside = (l is None or lo is not None and lo >= l) and (h is None or hi is not None and hi <= h)
                    v = inside != neg
                    lits.append((at, v))
                    p, q = assume(cof(p, at, v), at, v), assume(cof(q, at, v), at, v)
                w = " + ".join(("" if k == 1 else "%d * " % k) + show(t, 0, 5) for t, k in base[1])
                w = "%s%s in %s..%s" % ("len " if base[0] == "len" else "", w if len(w) < 80 else w[:77] + "...", "" if lo is None else lo, "" if hi is None else hi)
                out += self.assuming(lits, p, q, (path + " & " if path else "") + w)
            return out
        return None

    def paired(self, a, b, A, B, path):
        """Atoms of one side that took the place of atoms of the other."""
        if a.op != "ite" or b.op != "ite":
            return None
        cand = []
        for x in A:
            for y in B:
                if x.op == y.op:
                    r = self.diff_atoms(x, y, path)
                    if r and all(d.kind != STR_ for d in r):
                        cand.append((len(r), abs(x.sz - y.sz), _rank(x), x, y, r))
        cand.sort(key=lambda c: c[:2])
        best = None
        for n, _, _, x, y, r in cand[:4]:
            for v, w in ((True, False),):
                r1 = self.diff(cof(a, x, True), cof(b, y, v), path)
                r0 = self.diff(cof(a, x, False), cof(b, y, w), path)
                out = r + r1 + r0
                score = (sum(d.kind == STR_ for d in out), len(out))
                if best is None or score < best[0]:
                    best = (score, out)
            if best[0][0] == 0:
                break
        return best[1] if best else None

    def onesided(self, a, b, A, extra, path):
        """A condition that only one side (a) has."""
        if a.op != "ite" or self.nested:
            return None
        for at in A:
            if not free(at):
                continue
            a1, a0 = cof(a, at, True), cof(a, at, False)
            for v, same, other in ((True, a1, a0), (False, a0, a1)):
                if assume(b, at, v) is same or b is same:
                    o = assume(b, at, not v)
                    if decided(o) or decided(other) or self.certain(other, o, path):
                        x, y = cond_atom(at), TRUE if v else FALSE
                        return [Diff(DEF, x if extra else y, y if extra else x, "additional condition" if extra else "missing condition", path)]
        return None

    def certain(self, a, b, path):
        """Whether terms certainly differ, for another reason than a condition
        of one of them."""
        if self.nested:
            return False
        self.nested = True
        try:
            r = Differ(4000)
            r.nested = True
            r.lits = list(self.lits)
            ds = r.diff(a, b, path)
            return bool(ds) and all(d.kind != STR_ for d in ds)
        finally:
            self.nested = False

    def diff_atoms(self, x, y, path):
        if x.op == "ge0" or x.op == "lt":
            p, q = x.args[0], y.args[0]
            if x.op == "ge0":
                cx, dx = lin_parts(p)
                cy, dy = lin_parts(q)
                if dx == dy and cx != cy:
                    return [Diff(DEF, cond_atom(x), cond_atom(y), "other bound", path)]
                if dx == {k: -v for k, v in dy.items()}:
                    return [Diff(DEF, cond_atom(x), cond_atom(y), "reversed bound", path)]
        f = getattr(self, "d_" + x.op, None)
        if f is not None:
            r = f(x, y, path)
            if r is not None:
                return r
        return self.same(x, y, path)

    # the same operator
    def same(self, a, b, path):
        if len(a.args) != len(b.args):
            return [Diff(DEF if not unlike(a, b) else STR_, a, b, "different parts", path)]
        out = []
        for x, y in zip(a.args, b.args):
            if type(x) is T and type(y) is T:
                out += self.diff(x, y, path)
            elif x != y:
                out.append(Diff(DEF, a, b, "different %s" % a.op, path))
                break
        return out if a.op in INJECTIVE else demote(out)

    def d_c(self, a, b, path):
        return [Diff(DEF, a, b, "different value", path)]

    def d_sym(self, a, b, path):
        return [Diff(DEF, a, b, "different value", path)]

    d_root = d_sym
    d_glob = d_sym
    d_lbl = d_sym
    d_exc = d_sym

    def d_ls(self, a, b, path):
        return [Diff(DEF, a, b, "different variable", path)]

    d_ix = d_ls

    def d_attr(self, a, b, path):
        if a.args[1] == b.args[1]:
            return self.diff(a.args[0], b.args[0], path)
        if a.args[0] is b.args[0]:
            return [Diff(DEF, a, b, "different attribute", path)]
        return [Diff(DEF, a, b, "different attribute", path)]

    def d_idx(self, a, b, path):
        if a.args[0] is b.args[0]:
            return self.diff(a.args[1], b.args[1], path)
        if a.args[1] is b.args[1]:
            return self.diff(a.args[0], b.args[0], path)
        if "slice" in (a.args[0].op, b.args[0].op):
            return [Diff(STR_, a, b, "different parts", path)]
        return self.diff(a.args[0], b.args[0], path) + self.diff(a.args[1], b.args[1], path)

    def d_lin(self, a, b, path):
        ca, da = lin_parts(a)
        cb, db = lin_parts(b)
        if da == db:
            return [Diff(DEF, a, b, "off by %s" % (ca - cb), path)]
        ra = [k for k in da if da.get(k) != db.get(k)]
        rb = [k for k in db if da.get(k) != db.get(k)]
        if len(ra) == len(rb) == 1 and ra[0] is not rb[0] and da[ra[0]] == db[rb[0]]:
            r = self.diff(ra[0], rb[0], path)
            if ca != cb:
                r = r + [Diff(DEF, a, b, "different sum", path)]
            return r
        if not unlikes(ra, rb):
            return [Diff(DEF, a, b, "different sum", path)]
        return [Diff(STR_, a, b, "different sum", path)]

    def d_ge0(self, a, b, path):
        ca, da = lin_parts(a.args[0])
        cb, db = lin_parts(b.args[0])
        if da == db:
            return [Diff(DEF, a, b, "other bound", path)]
        return self.diff(a.args[0], b.args[0], path)

    def d_call(self, a, b, path):
        if a.args[0] == b.args[0] == "re.compile" and len(a.args) == len(b.args) and is_const(a.args[1]) and is_const(b.args[1]) and a.args[2:] == b.args[2:]:
            same = same_language(cval(a.args[1]), cval(b.args[1]))
            return [Diff(DEF if same is False else STR_, a, b, "another pattern", path)]
        if a.args[0] != b.args[0]:
            return self.names(a, b, a.args[0], b.args[0], path)
        return self.callargs(a, b, path)

    def d_m(self, a, b, path):
        if a.args[0] != b.args[0]:
            return self.names(a, b, a.args[0], b.args[0], path)
        return self.callargs(a, b, path)

    def names(self, a, b, x, y, path):
        for s in DISTINCT:
            if x in s and y in s:
                return [Diff(DEF, a, b, "different function", path)]
        if str(x).startswith("=") and str(y).startswith("="):
            return [Diff(DEF, a, b, "different function", path)]
        return [Diff(STR_, a, b, "different function", path)]

    def callargs(self, a, b, path):
        pa = [x for x in a.args[1:] if type(x) is T and x.op != "kw"]
        pb = [x for x in b.args[1:] if type(x) is T and x.op != "kw"]
        ka = {x.args[0]: x.args[1] for x in a.args[1:] if type(x) is T and x.op == "kw"}
        kb = {x.args[0]: x.args[1] for x in b.args[1:] if type(x) is T and x.op == "kw"}
        out = []
        if len(pa) != len(pb):
            return [Diff(STR_, a, b, "different arguments", path)]
        for x, y in zip(pa, pb):
            out += self.diff(x, y, path)
        for k in sorted(set(ka) | set(kb)):
            if k not in ka or k not in kb:
                out.append(Diff(DEF, a, b, "argument %s %s" % (k, "missing" if k not in ka else "not expected"), path))
            else:
                out += self.diff(ka[k], kb[k], (path + " / " if path else "") + "argument " + str(k))
        return demote(out) if a.args[0] in NOTFREE else out

    def d_obj(self, a, b, path):
        if a.args[0] != b.args[0]:
            return [Diff(DEF, a, b, "different class", path)]
        da, db = dict(zip(a.args[1], a.args[2:])), dict(zip(b.args[1], b.args[2:]))
        out = []
        for k in sorted(set(da) | set(db)):
            if k not in da or k not in db:
                out.append(Diff(STR_, a, b, "attribute " + k, path))
            else:
                out += self.diff(da[k], db[k], (path + " / " if path else "") + k)
        return out

    def d_dictof(self, a, b, path):
        x, y = a.args[0], b.args[0]
        if x.op == y.op == "list":
            da = {p.args[0]: p.args[1] for p in x.args if p.op == "tuple"}
            db = {p.args[0]: p.args[1] for p in y.args if p.op == "tuple"}
            if all(is_const(k) for k in list(da) + list(db)):
                out = []
                for k in sorted(set(da) | set(db), key=lambda k: repr(cval(k))):
                    if k not in da or k not in db:
                        out.append(Diff(DEF, a, b, "entry %r %s" % (cval(k), "missing" if k not in da else "not expected"), path))
                    else:
                        out += self.diff(da[k], db[k], (path + " / " if path else "") + repr(cval(k)))
                return out
        return self.diff(x, y, path)

    def parts(self, a, b, pa, pb, path, what):
        n = 0
        while n < len(pa) and n < len(pb) and pa[n] is pb[n]:
            n += 1
        m = 0
        while m < len(pa) - n and m < len(pb) - n and pa[-1 - m] is pb[-1 - m]:
            m += 1
        x, y = pa[n:len(pa) - m], pb[n:len(pb) - m]
        if not x or not y:
            z = x or y
            loopy = unlikes(x, y)
            if all(p.op == "ite" for p in z) and not loopy:
                return [Diff(DEF, a, b, "%s part" % ("additional" if x else "missing"), path)]
            return [Diff(STR_ if loopy else DEF, a, b, "%s part" % ("additional" if x else "missing"), path)]
        if len(x) == len(y):
            out = []
            for p, q in zip(x, y):
                out += self.diff(p, q, path)
            return out if len(x) == 1 else demote(out)
        if not unlikes(x, y):
            return [Diff(DEF, a, b, "different parts", path)]
        return [Diff(STR_, a, b, "different parts", path)]

    def d_strcat(self, a, b, path):
        return self.parts(a, b, list(a.args), list(b.args), path, "text")

    def d_cat(self, a, b, path):
        return self.parts(a, b, chunks(a), chunks(b), path, "sequence")

    def d_list(self, a, b, path):
        if len(a.args) == len(b.args):
            return None
        return self.parts(a, b, list(a.args), list(b.args), path, "sequence")

    def d_sorted(self, a, b, path):
        if a.args[0] is b.args[0] and a.args[1].op == b.args[1].op == "lam":
            i = fresh_ix()
            p, q = open1(a.args[1], i), open1(b.args[1], i)
            for x, y in ((p, q), (q, p)):
                # more than one key, and it is not the place in the list
                if x.op == "tuple" and x.args[0] is y and any(z.op == "attr" and free_term(z) and i in subterms(z) for z in x.args[1:2]):
                    return [Diff(DEF, p, q, "different order", path)]
            if "tuple" in (p.op, q.op):
                return [Diff(STR_, p, q, "different order", path)]
        return None

    def d_lam(self, a, b, path):
        i = fresh_ix()
        return demote(self.diff(open1(a, i), open1(b, i), path))

    def binder(self, a, b, path):
        out = self.diff(a.args[1], b.args[1], path)
        i = fresh_ix()
        n = ge0(sub(sub(a.args[1], i), ONE))
        lits = [(n.args[0], True)] if n.op == "ite" and n.args[1] is TRUE and n.args[2] is FALSE else []
        for k in range(2, len(a.args)):
            out = out + self.assuming(lits, open_body(a, k, i), open_body(b, k, i), path)
        return demote(out) if a.op == "first" else out

    d_flat = d_exists = d_first = d_sum = binder

    def loop(self, a, b, path):
        if a.args[2] != b.args[2] or a.args[3] is not b.args[3]:
            if a.args[3] is not b.args[3]:
                return [Diff(STR_, a, b, "different ways of leaving a loop", path)]
            return [Diff(STR_, a, b, "different loop variables", path)]
        A = open_loop(a)
        B = open_loop(b)
        n = len(A[0])
        best = None
        perms = itertools.permutations(range(n)) if n <= 4 else [tuple(range(n))]
        for perm in sorted(perms, key=lambda p: sum(A[1][i] is not B[1][p[i]] for i in range(n))):
            if best is not None and best[0][0] == 0:
                break
            if any(TYPES.get(A[0][i]) != TYPES.get(B[0][perm[i]]) for i in range(n)):
                continue
            m = {B[0][perm[i]]: A[0][i] for i in range(n)}
            out = []
            for i in range(n):
                out += self.diff(A[1][i], B[1][perm[i]], path)
            out += self.diff(A[2], subst(B[2], m), path)
            for i in range(n):
                out += self.diff(A[3][i], subst(B[3][perm[i]], m), path)
            if A[4] is not None:
                out += self.diff(A[4], subst(B[4], m), path)
            score = (sum(d.kind == STR_ for d in out), len(out))
            if best is None or score < best[0]:
                best = (score, out)
        if best is None:
            return [Diff(STR_, a, b, "different loop variables", path)]
        return demote(best[1])

    d_loopout = d_loopexit = loop

    # different operators
    def other(self, a, b, path):
        leafs = ("c", "sym", "glob", "lbl", "exc", "attr", "root", "ls", "ix")
        for x, y, w in ((a, b, "missing"), (b, a, "additional")):
            if adds(y, x):
                return [Diff(DEF, a, b, w + " loop", path)]
        if unlike(a, b):
            return [Diff(STR_, a, b, "different structure", path)]
        if a.op in leafs and b.op in leafs:
            return [Diff(DEF, a, b, "different value", path)]
        if apart(ty(a), ty(b)):
            return [Diff(DEF, a, b, "value of another type", path)]
        p, q = length(a), length(b)
        if p and q and p[0] == q[0] and p[1] != q[1]:
            return [Diff(DEF, a, b, "of another length", path)]
        for x, y, w in ((a, b, "missing"), (b, a, "additional")):
            # one side lacks the outermost operation of the other
            if x.op in ("iterof", "iterset") and y.op == "sorted" and y.args[0] in (x, x.args[0]):
                return [Diff(DEF, a, b, "%s sorted" % w, path)]
            if y.op in ("store", "sorted", "setadd", "ostore", "lin", "strcat", "cat", "slice", "dictupd", "setof") and any(x is z for z in y.args):
                return [Diff(DEF, a, b, "%s %s" % (w, y.op), path)]
        if a.op == "c" or b.op == "c":
            return [Diff(DEF, a, b, "different value", path)]
        if a.op in ("call", "m") and b.op in ("call", "m"):
            return self.names(a, b, a.args[0], b.args[0], path)
        if {a.op, b.op} == {"key", "idx"}:
            return [Diff(STR_, a, b, "different structure", path)]
        if free_term(a) and free_term(b) and not any(x.op in ("m", "obj") for t in (a, b) for x in subterms(t)):
            return [Diff(DEF, a, b, "different value", path)]
        for x, y in ((a, b), (b, a)):
            # nothing in place of what was loaded
            if x in (dictof(lst()), lst(), setof(lst())) and y.op == "idx" and is_const(y.args[1]) and y.args[0].op == "m" and y.args[0].args[0] == "load":
                return [Diff(DEF, a, b, "different value", path)]
        return [Diff(STR_, a, b, "different structure", path)]


def adds(t, x):
    """Whether t is the outcome of a loop that only adds to x."""
    if t.op != "loopout":
        return False
    S, inits, kind, nexts, out, _ = open_loop(t)
    for v, i, n in zip(S, inits, nexts):
        if i is x and out is v:
            ls = [z for _, z in leaves(n)]
            return all(z is v or z.op in ("cat", "strcat", "call") and z.args[0 if z.op != "call" else 1] is v and (z.op != "call" or z.args[0] == "heappush") for z in ls) and any(z is not v for z in ls)
    return False


def apart(x, y):
    """Whether no value is of both types."""
    if x is None or y is None:
        return False
    ks = []
    for t in (x, y):
        k = t[0] if type(t) is tuple else t
        if k in ("opt", "none"):
            return False
        ks.append({"float": "int", "bool": "int"}.get(k, k))
    if ks[0] != ks[1]:
        return set(ks) != {"list", "tuple"}
    return ks[0] in ("list", "set") and len(x) > 1 and len(y) > 1 and apart(x[1], y[1])


def length(t):
    """(what a sequence is made from, elements more than that)"""
    if t.op == "store" and ty(t) and ty(t)[0] == "list":
        return length(t.args[0])
    if t.op == "list":
        return frozenset(), len(t.args)
    if t.op == "cat":
        s, n = [], 0
        for x in t.args:
            r = length(x)
            if r is None:
                return None
            s += r[0]
            n += r[1]
        return (frozenset(s), n) if len(set(s)) == len(s) else None
    if t.op in ("ls", "sym", "attr", "idx", "call", "m", "sorted"):
        return frozenset([t]), 0
    return None


def feasible(lits):
    """Whether what is assumed may be; no if a number is of no type of number."""
    for a, v in lits:
        if a.op == "eq" and v and is_const(a.args[1]) and type(cval(a.args[1])) in (int, float):
            no = {typeis(b, a.args[0]) for b, w in lits if b.op == "eq" and not w}
            if {"int", "float"} <= no:
                return False
    return True


def interval(at):
    """(what, low, high, negated) of an atom that compares an integer."""
    if at.op == "truthy":
        t = at.args[0]
        if ty(t) == "int":
            return ("int", ((t, 1),)), 0, 0, True
        if t.op not in ("call", "m"):
            return ("len", ((t, 1),)), 1, None, False
        return None
    if at.op == "ge0":
        c, d = lin_parts(at.args[0])
        if not d or any(ty(k) != "int" for k in d):
            return None
        ks = sorted(d, key=_rank)
        if len(ks) == 1 and ks[0].op == "len" and abs(d[ks[0]]) == 1:
            base = ("len", ((ks[0].args[0], 1),))
            return (base, -c, None, False) if d[ks[0]] == 1 else (base, None, c, False)
        if len(ks) == 1 and abs(d[ks[0]]) != 1:
            return None
        if d[ks[0]] > 0:
            return ("int", tuple((k, d[k]) for k in ks)), -c, None, False
        return ("int", tuple((k, -d[k]) for k in ks)), None, c, False
    if at.op == "eq":
        x, y = at.args
        if ty(x) != "int" or ty(y) != "int":
            return None
        c, d = lin_parts(x)
        e, f = lin_parts(y)
        for k, v in f.items():
            d = dict(d)
            d[k] = d.get(k, 0) - v
        d = {k: v for k, v in d.items() if v}
        c -= e
        if not d:
            return None
        ks = sorted(d, key=_rank)
        if any(ty(k) != "int" for k in ks):
            return None
        if len(ks) == 1 and ks[0].op == "len" and abs(d[ks[0]]) == 1:
            v = -c * d[ks[0]]
            return ("len", ((ks[0].args[0], 1),)), v, v, False
        if len(ks) == 1 and abs(d[ks[0]]) != 1:
            return None
        sg = 1 if d[ks[0]] > 0 else -1
        return ("int", tuple((k, sg * d[k]) for k in ks)), -sg * c, -sg * c, False
    return None


def chunks(t):
    out = []
    for p in seq_parts(t):
        if p.op == "list":
            out += [_raw("list", e) for e in p.args]
        else:
            out.append(p)
    return out


_loops = {}


def loops_in(t):
    """Loops and unknown parts of a term."""
    r = _loops.get(t)
    if r is None:
        r, st, seen = set(), [t], set()
        while st:
            x = st.pop()
            if type(x) is not T or x in seen:
                continue
            seen.add(x)
            if x.op in LOOPY:
                r.add(x)
            st.extend(x.args)
        _loops[t] = r
    return r


def has_loops(*ts):
    return any(type(t) is T and has(t, LOOPY) for t in ts)


def unlike(a, b):
    """Loops that only one of two terms has."""
    return loops_in(a) != loops_in(b)


def unlikes(xs, ys):
    return set().union(*map(loops_in, xs), *[()]) != set().union(*map(loops_in, ys), *[()])


def decided(t):
    return t.op in ("c", "lbl", "exc") or t is TRUE or t is FALSE


def free(at):
    """Whether an atom may be of either truth, whatever other conditions hold
    (not a test of the kind that is made to be on the safe side)."""
    if at.op == "in":
        return not is_const(at.args[0])  # a usual test for an optional entry
    if at.op in ("ge0", "lt", "eq"):
        return not (at.op == "eq" and (at.args[0].op == "typeof" or at.args[1].op == "typeof"))
    if at.op == "truthy":
        return ty(at.args[0]) == "bool" or at.args[0].op in ("call", "m")
    if at.op == "exists":
        n = at.args[1]
        if n.op == "len" and free_term(n):
            i = fresh_ix()
            return any(possible([(n_.args[0], True) for n_ in [ge0(sub(sub(n, i), ONE))] if n_.op == "ite"] + l) for l in ways(open_body(at, 2, i), []))
    return False


def ways(t, lits, limit=40):
    """Conditions under which a truth value is true."""
    if t.op == "ite":
        for v in (1, 2):
            yield from ways(t.args[v], lits + [(t.args[0], v == 1)])
    elif t is TRUE:
        yield lits


_swap = {}


def swap(t, x, y):
    """Diagram t with atom x replaced by y (only on top)."""
    if t.op != "ite":
        return t
    k = (t, x, y)
    r = _swap.get(k)
    if r is None:
        at = y if t.args[0] is x else t.args[0]
        r = ite(cond_atom(at), swap(t.args[1], x, y), swap(t.args[2], x, y))
        _swap[k] = r
    return r


def compare(a, b):
    """('same' | 'different' | 'unknown', differences)"""
    if a is b:
        return "same", []
    ds = Differ().diff(a, b)
    if not ds:
        return "same", []  # the same in every case
    ds = promote(ds)
    w = [d for d in ds if d.kind == WIT]
    if w:
        return "different", w
    return "unknown", ds
