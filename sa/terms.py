"""Hash-consed value terms with normalising constructors.

A term is an immutable value expression; equal behaviour that the constructors
know of is given one single form, so that equality of terms is identity.
Conditions are binary decision diagrams over ordered atoms (`ite` nodes);
values that depend on conditions are multi-terminal diagrams.  Quantified
constructs (map, exists, first, loops) bind variables named by their height,
which makes them independent of the names used in the source.
"""
import sys

sys.setrecursionlimit(20000)


class T:
    __slots__ = ("op", "args", "id", "h", "fs", "sz", "lv", "mask")

    def __repr__(self):
        return show(self)


_TAB = {}
NOFS = frozenset()


def _raw(op, *args):
    key = (op, args)
    t = _TAB.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.id = op, args, len(_TAB)
        h, sz, fs, mask = 0, 1, None, 0
        lv = op in ("root", "ref")
        for a in args:
            if type(a) is T:
                if a.h > h:
                    h = a.h
                sz += a.sz
                lv = lv or a.lv
                mask |= a.mask
                if a.fs:
                    fs = a.fs if fs is None else (fs if a.fs <= fs else fs | a.fs)
        t.h, t.sz, t.lv = h, sz, lv
        if op == "ite":
            mask |= keymask(args[0])
        elif op == "len":
            mask |= keybit(args[0])
        t.mask = mask
        t.fs = fs or NOFS
        if op in ("ix", "ls"):
            t.fs = frozenset([t])
        elif op in BINDERS:
            t.h = args[0]
        _TAB[key] = t
    return t


# Which terms are tested in a term: a bit for each, so that what is assumed
# about others need not be looked for in it.
_KEYS = {}
_MASK = {}
WIDTH = 4096


def keybit(x):
    k = _KEYS.get(x)
    if k is None:
        k = _KEYS[x] = 1 << (len(_KEYS) % WIDTH)
    return k


def keymask(a):
    """Bits of what the atom a is about."""
    m = _MASK.get(a)
    if m is None:
        m = keybit(a)
        op = a.op
        if op in ("truthy", "isnone"):
            m |= keybit(a.args[0])
        elif op in ("eq", "lt"):
            for x in a.args:
                if type(x) is T and not is_const(x):
                    m |= keybit(x)
                    if x.op == "typeof":
                        m |= keybit(x.args[0])
                    m |= basebits(x)
        elif op == "ge0":
            m |= basebits(a.args[0])
        elif op == "in":
            m |= keybit(a.args[1])
        elif op == "exists":
            n = a.args[1]
            if n.op == "len":
                m |= keybit(n.args[0])
        _MASK[a] = m
    return m


def basebits(x):
    b = lin_base(x)[0]
    m = keybit(b)
    if b.op == "len":
        m |= keybit(b.args[0])
    return m


BINDERS = {"flat", "exists", "first", "sum", "lam", "loopout", "loopexit"}

# --------------------------------------------------------------- leaves


def const(v):
    return _raw("c", type(v).__name__, v)


TRUE, FALSE, NONE = const(True), const(False), const(None)
ZERO, ONE = const(0), const(1)
EMPTY_STR = const("")


def is_const(t):
    return t.op == "c"


def cval(t):
    return t.args[1]


def sym(name):
    return _raw("sym", name)


def root(name):
    return _raw("root", name)


def glob(name):
    return _raw("glob", name)


_uid = [0]
TYPES = {}  # term -> type, for leaves


def fresh(op, ty=None):
    _uid[0] += 1
    t = _raw(op, _uid[0])
    if ty is not None:
        TYPES[t] = ty
    return t


def fresh_ix():
    return fresh("ix", "int")


def opaque(why, *args):
    return _raw("opaque", why, *args)


# ---------------------------------------------------------------- types
# 'int' 'float' 'str' 'bool' 'none' ('list',t) ('dict',k,v) ('set',t)
# ('tuple',) ('inst',cls) ('opt',t) or None (unknown)

CLASS_ATTRS = {}  # class -> {attr: type}
CLASS_BASES = {}  # class -> list of base class names (mro)
CALL_TYPES = {}
RECORDS = {}  # name of a dict with fixed keys -> {key: type}; its type is ('dict', 'str', None, name)
_TY = {}


def attr_type(cls, name):
    for c in CLASS_BASES.get(cls, [cls]):
        if name in CLASS_ATTRS.get(c, {}):
            return CLASS_ATTRS[c][name]
    return None


def join_ty(a, b):
    if a == b:
        return a
    if a == "none":
        a, b = b, a
    if b == "none" and a is not None:
        return a if a[0] == "opt" else ("opt", a)
    if a and b and a[0] == "opt" and a[1] == b:
        return a
    if a and b and b[0] == "opt" and b[1] == a:
        return b
    if {a, b} <= {"int", "float"}:
        return "float"
    for x, y in ((a, b), (b, a)):
        if type(x) is tuple and type(y) is tuple and x[0] == y[0] and x[0] in ("list", "dict", "set") and all(z is None for z in x[1:]):
            return y
    return None


def ty(t):
    r = _TY.get(t, 0)
    if r == 0:
        r = _ty(t)
        if t.op not in ("sym", "ls", "root"):
            _TY[t] = r
    return r


def _ty(t):
    op, a = t.op, t.args
    if op == "c":
        return {"NoneType": "none"}.get(a[0], a[0])
    if t in TYPES:
        return TYPES[t]
    if op == "bv":
        return "int"
    if op == "lv":
        return a[2]
    if op in ("lin", "len", "sum"):
        if op == "lin":
            return "float" if any(ty(x) == "float" for x in a[1::2]) else "int"
        return "int"
    if op == "ite":
        return join_ty(ty(a[1]), ty(a[2]))
    if op in ("eq", "lt", "ge0", "truthy", "isnone", "in", "exists", "loopexit", "is"):
        return "bool"
    if op in ("list", "cat", "flat", "sorted", "keys"):
        e = None
        if op == "list" and a:
            e = ty(a[0])
            if any(ty(y) != e for y in a[1:]):
                e = None
        elif op == "sorted":
            x = ty(a[0])
            e = x[1] if x and x[0] in ("list", "set", "dict") else None
        elif op == "keys":
            x = ty(a[0])
            e = x[1] if x and x[0] == "dict" else None
        elif op == "flat":
            x = ty(a[2])
            e = x[1] if x and x[0] == "list" else None
        elif op == "cat":
            for y in a:
                x = ty(y)
                if x and x[0] == "list" and x[1] is not None:
                    e = x[1]
        return ("list", e)
    if op in ("dictof",):
        s = a[0]
        k = v = None
        if s.op == "list" and s.args and s.args[0].op == "tuple":
            k, v = ty(s.args[0].args[0]), ty(s.args[0].args[1])
            if all(y.op == "tuple" and is_const(y.args[0]) for y in s.args):
                v = None  # a record: more keys may follow
            elif any(y.op != "tuple" or ty(y.args[1]) != v for y in s.args):
                v = None
        elif s.op == "flat" and s.args[2].op == "list" and s.args[2].args[0].op == "tuple":
            k, v = ty(s.args[2].args[0].args[0]), ty(s.args[2].args[0].args[1])
        return ("dict", k, v)
    if op in ("store", "del", "dictupd", "groupupd", "setupd", "ostore"):
        return ty(a[0])
    if op in ("setof", "setadd"):
        if op == "setof":
            x = ty(a[0])
            return ("set", x[1] if x and x[0] == "list" else None)
        return ty(a[0])
    if op in ("strcat", "sjoin", "fmtv"):
        return "str"
    if op in ("tuple", "astuple"):
        return ("tuple",)
    if op == "obj":
        return ("inst", a[0])
    if op == "slice":
        return ty(a[0])
    if op == "key":
        x = ty(a[0])
        return x[1] if x and x[0] in ("dict", "set") else None
    if op == "attr":
        x = ty(a[0])
        if x and x[0] == "opt":
            x = x[1]
        if x and x[0] == "inst":
            return attr_type(x[1], a[1])
        return None
    if op == "idx":
        x = ty(a[0])
        if x and x[0] == "opt":
            x = x[1]
        if x == "str":
            return "str"
        if x and x[0] == "list":
            return x[1]
        if x and x[0] == "dict":
            if len(x) == 4 and is_const(a[1]):
                return RECORDS[x[3]].get(cval(a[1]))
            return x[2]
        return None
    if op == "first":
        return ty(a[3])
    if op == "loopout":
        return a[1][2]
    if op in ("call", "m"):
        return CALL_TYPES.get(a[0] if op == "call" else "." + a[0])
    if op == "arith":
        if a[0] == "//" or a[0] == "%":
            return "int" if ty(a[1]) == "int" else None
        return "float"
    if op == "mul":
        ts = {ty(x) for x in a}
        return "int" if ts == {"int"} else ("float" if ts <= {"int", "float"} else None)
    return None


def is_int(t):
    x = ty(t)
    return x == "int" or x == "bool" and t.op == "c"


def nonnull(t):
    """Known not to be None."""
    if t.op == "ite":
        return nonnull(t.args[1]) and nonnull(t.args[2])
    x = ty(t)
    return x is not None and x != "none" and x[0] != "opt"


# ------------------------------------------------------------- diagrams


def _top(t):
    return t.args[0] if t.op == "ite" else None


def _rank(a):
    """Order of atoms: atoms on the same subject are adjacent."""
    s = _subject(a)
    return (s.id, a.id)


def _subject(a):
    if a.op in ("truthy", "isnone"):
        return a.args[0]
    if a.op == "ge0":
        return lin_base(a.args[0])[0]
    if a.op == "eq":
        if is_const(a.args[1]):
            return lin_base(a.args[0])[0] if a.args[0].op == "lin" else a.args[0]
    return a


_ite_memo = {}


def ite(c, t, e):
    if c is TRUE:
        return t
    if c is FALSE:
        return e
    if t is e:
        return t
    if t is TRUE and e is FALSE:
        return c
    key = (c, t, e)
    r = _ite_memo.get(key)
    if r is not None:
        return r
    if c.op != "ite":
        raise AssertionError("condition expected: %r" % (c,))
    tops = [x for x in (c, t, e) if x.op == "ite"]
    a = min((x.args[0] for x in tops), key=_rank)
    hi = ite(*[x.args[1] if x.op == "ite" and x.args[0] is a else x for x in (c, t, e)])
    lo = ite(*[x.args[2] if x.op == "ite" and x.args[0] is a else x for x in (c, t, e)])
    r = node(a, hi, lo)
    _ite_memo[key] = r
    return r


def node(a, hi, lo):
    if hi is lo:
        return hi
    hi = assume(hi, a, True)
    lo = assume(lo, a, False)
    if hi is lo:
        return hi
    if a.op == "truthy" and hi is a.args[0]:
        x = ty(hi)
        k = x[0] if type(x) is tuple else x
        # "x or []", where x is a list anyway
        if k == "list" and lo.op == "list" and not lo.args or k == "dict" and lo.op == "dictof" and lo.args[0].op == "list" and not lo.args[0].args or k == "str" and lo.op == "c" and cval(lo) == "":
            return hi
    if a.op in ("truthy", "isnone"):
        # a is implied by what else is tested
        if assume(hi, a, False) is lo:
            return hi
        if assume(lo, a, True) is hi:
            return lo
    return merge(a, hi, lo)


TYPENAMES = {"int", "float", "str", "bool", "list", "dict", "tuple", "set", "bytes"}
FACTS = {}  # atoms whose truth is known throughout


def cond_atom(a):
    if a in FACTS:
        return TRUE if FACTS[a] else FALSE
    return node_raw(a, TRUE, FALSE)


def node_raw(a, hi, lo):
    return _raw("ite", a, hi, lo)


def seq_parts(t):
    if t.op == "cat":
        return list(t.args)
    if t.op == "list":
        return [t] if t.args else []
    return [t]


def is_seq(t):
    if t.op in ("list", "cat", "flat", "sorted"):
        return True
    if t.op == "ite":
        return is_seq(t.args[1]) and is_seq(t.args[2])
    x = ty(t)
    return bool(x) and x[0] == "list"


def merge(a, hi, lo):
    """ite(a, hi, lo), sharing common structure of hi and lo."""
    c = cond_atom(a)
    o1, o2 = hi.op, lo.op
    if o1 == o2 and o1 in ("tuple", "list") and len(hi.args) == len(lo.args) and hi.args:
        return mk(o1, *[ite(c, x, y) for x, y in zip(hi.args, lo.args)])
    if o1 == o2 == "obj" and hi.args[:2] == lo.args[:2]:
        return mk("obj", hi.args[0], hi.args[1], *[ite(c, x, y) for x, y in zip(hi.args[2:], lo.args[2:])])
    if o1 == o2 == "store" and hi.args[1] is lo.args[1] and (hi.args[0] is lo.args[0] or not is_const(hi.args[1])):
        return store(ite(c, hi.args[0], lo.args[0]), hi.args[1], ite(c, hi.args[2], lo.args[2]))
    if o1 == o2 == "dictof" and hi.args[0].op == lo.args[0].op == "list":
        k1 = [p.args[0] for p in hi.args[0].args]
        k2 = [p.args[0] for p in lo.args[0].args]
        if k1 == k2 and k1:
            return dictof(lst(*[tup(k, ite(c, p.args[1], q.args[1])) for k, p, q in zip(k1, hi.args[0].args, lo.args[0].args)]))
    if o1 == o2 == "dictof":
        ks = set()
        if const_keys(hi.args[0], ks) and const_keys(lo.args[0], ks):
            return dictof(cat(*[ite(c, entry(hi.args[0], k, lst()), entry(lo.args[0], k, lst())) for k in sorted(ks, key=cval)]))
    if o1 == o2 == "sorted" and hi.args[1:] == lo.args[1:]:
        return mk_sorted(ite(c, hi.args[0], lo.args[0]), *hi.args[1:])
    if (o1 in ("cat", "list") or o2 in ("cat", "list")) and is_seq(hi) and is_seq(lo):
        p, q = _chunks(hi), _chunks(lo)
        n = 0
        while n < len(p) and n < len(q) and p[n] is q[n]:
            n += 1
        m = 0
        while m < len(p) - n and m < len(q) - n and p[-1 - m] is q[-1 - m]:
            m += 1
        if n or m:
            mid = ite(c, cat(*p[n:len(p) - m]), cat(*q[n:len(q) - m]))
            return cat(*(p[:n] + [mid] + p[len(p) - m:]))
    if "strcat" in (o1, o2):
        p = list(hi.args) if o1 == "strcat" else [hi]
        q = list(lo.args) if o2 == "strcat" else [lo]
        n = 0
        while n < len(p) and n < len(q) and p[n] is q[n]:
            n += 1
        m = 0
        while m < len(p) - n and m < len(q) - n and p[-1 - m] is q[-1 - m]:
            m += 1
        if (n or m) and (ty(hi) == "str" and ty(lo) == "str"):
            mid = ite(c, strcat(*p[n:len(p) - m]), strcat(*q[n:len(q) - m]))
            return strcat(*(p[:n] + [mid] + p[len(p) - m:]))
    return node_raw(a, hi, lo)


def _chunks(t):
    out = []
    for p in seq_parts(t):
        if p.op == "list":
            out += [_raw("list", e) for e in p.args]
        else:
            out.append(p)
    return out


def not_(c):
    return ite(c, FALSE, TRUE)


def and_(*cs):
    r = TRUE
    for c in cs:
        r = ite(r, c, FALSE)
    return r


def or_(*cs):
    r = FALSE
    for c in cs:
        r = ite(r, TRUE, c)
    return r


def implied(b, a, val):
    """Truth of atom b when atom a has truth val, or None."""
    if a is b:
        return val
    oa, ob = a.op, b.op
    if oa == "isnone" and ob in ("truthy",) and a.args[0] is b.args[0] and val:
        return False
    if oa == "truthy" and ob == "isnone" and a.args[0] is b.args[0] and val:
        return False
    if oa == "eq" and val:
        x, k = a.args
        if is_const(k):
            if ob == "eq" and b.args[0] is x and is_const(b.args[1]):
                return k is b.args[1]
            if ob == "truthy" and b.args[0] is x:
                return bool(cval(k))
            if ob == "isnone" and b.args[0] is x:
                return cval(k) is None
            if ob == "eq" and is_const(k):
                n = typeis(b, x)
                if n is not None:
                    t = type(cval(k)).__name__
                    if t in ("int", "float", "bool"):
                        return None if n in ("int", "float", "bool") else False
                    return n == t
            if ob == "ge0" and type(cval(k)) is int:
                base, sgn, c = lin_base(b.args[0])
                b2, s2, c2 = lin_base(x)
                if base is b2 and c2 is not None:
                    # s2*base + c2 == k
                    v = (cval(k) - c2) * s2
                    return sgn * v + c >= 0
    if oa == "eq" and ob == "eq" and is_const(b.args[1]):
        n = typeis(a, b.args[0])
        if n is not None:
            t = type(cval(b.args[1])).__name__
            k = t in ("int", "float", "bool")
            if (n not in ("int", "float", "bool") if k else n != t) if val else n == t == "str":
                return False
    if oa == "ge0" and ob == "ge0":
        b1, s1, c1 = lin_base(a.args[0])
        b2, s2, c2 = lin_base(b.args[0])
        if b1 is b2:
            # s1*x + c1 >= 0 is val
            if s1 == 1:
                lo, hi = (-c1, None) if val else (None, -c1 - 1)
            else:
                lo, hi = (None, c1) if val else (c1 + 1, None)
            if s2 == 1:
                if lo is not None and lo >= -c2:
                    return True
                if hi is not None and hi < -c2:
                    return False
            else:
                if hi is not None and hi <= c2:
                    return True
                if lo is not None and lo > c2:
                    return False
    if oa == "ge0" and ob == "eq" and is_const(b.args[1]) and type(cval(b.args[1])) is int:
        b1, s1, c1 = lin_base(a.args[0])
        b2, s2, c2 = lin_base(b.args[0])
        if b1 is b2:
            v = (cval(b.args[1]) - c2) * s2
            ok = (s1 * v + c1 >= 0) == val
            if not ok:
                return False
    if oa == "truthy" and not val and ob == "ge0":
        # len(x) == 0
        base, s, c = lin_base(b.args[0])
        if base.op == "len" and base.args[0] is a.args[0]:
            return s * 0 + c >= 0
    if oa == "truthy" and not val and ob == "in" and b.args[1] is a.args[0] and ty(a.args[0]) is not None:
        return False
    if oa == "truthy" and not val and ob == "exists":
        n = b.args[1]
        if n.op == "len" and n.args[0] is a.args[0]:
            return False
    if oa == "in" and val and ob == "truthy" and b.args[0] is a.args[1]:
        return True
    if oa == "exists" and val and ob == "truthy":
        n = a.args[1]
        if n.op == "len" and n.args[0] is b.args[0]:
            return True
    if oa == "lt" and val and ob == "lt" and a.args[0] is b.args[1] and a.args[1] is b.args[0]:
        return False
    if oa == "eq" and val and ob == "lt" and set(a.args) == set(b.args):
        return False
    if oa == "lt" and val and ob == "eq" and set(a.args) == set(b.args):
        return False
    return None


def typeis(a, x):
    """n, if the equation a says that the type of x is n."""
    p, q = a.args
    if p.op != "typeof":
        p, q = q, p
    if p.op == "typeof" and p.args[0] is x and q.op == "glob":
        return q.args[0]
    return None


_assume_memo = {}


def _related(a):
    """Cheap filter: terms that must occur in t for a to matter."""
    return a


def assume(t, a, val):
    """t, knowing the truth of atom a (also deep inside constructors)."""
    if not val and t.op == "len" and a.op == "truthy" and t.args[0] is a.args[0]:
        return ZERO
    if not t.mask & keymask(a):
        return t
    key = (t, a, val)
    r = _assume_memo.get(key)
    if r is not None:
        return r
    if t.op == "ite":
        b = t.args[0]
        v = implied(b, a, val)
        if v is True:
            r = assume(t.args[1], a, val)
        elif v is False:
            r = assume(t.args[2], a, val)
        else:
            b2 = _assume_in(b, a, val)
            hi, lo = assume(t.args[1], a, val), assume(t.args[2], a, val)
            if b2 is b:
                r = t if hi is t.args[1] and lo is t.args[2] else (hi if hi is lo else merge(b, hi, lo))
            else:
                r = ite(b2, hi, lo)
    else:
        r = _assume_in(t, a, val)
    _assume_memo[key] = r
    return r


def _assume_in(t, a, val):
    if t.op in BINDERS:
        return map_binder(t, lambda x: assume(x, a, val))
    ch = False
    na = []
    for x in t.args:
        if type(x) is T:
            y = assume(x, a, val)
            ch = ch or y is not x
            na.append(y)
        else:
            na.append(x)
    return mk(t.op, *na) if ch else t


ATOMS = {"truthy", "isnone", "eq", "lt", "ge0", "in", "exists", "loopexit", "is"}


def atoms_of(t, acc=None, seen=None):
    """Atoms of the diagram on top of t (not inside of terms)."""
    if acc is None:
        acc, seen = [], set()
    if t in seen:
        return acc
    seen.add(t)
    if t.op == "ite":
        if t.args[0] not in acc:
            acc.append(t.args[0])
        atoms_of(t.args[1], acc, seen)
        atoms_of(t.args[2], acc, seen)
    return acc


def leaves(t, cond=TRUE):
    """(condition, leaf) of a diagram."""
    if t.op != "ite":
        yield cond, t
        return
    a = cond_atom(t.args[0])
    yield from leaves(t.args[1], and_(cond, a))
    yield from leaves(t.args[2], and_(cond, not_(a)))


def lift(f, *args):
    """Apply f to arguments, moving conditions in them outwards."""
    for i, x in enumerate(args):
        if type(x) is T and x.op == "ite":
            a = x.args[0]
            l1 = [assume1(y, a, True) if type(y) is T else y for y in args]
            l2 = [assume1(y, a, False) if type(y) is T else y for y in args]
            return ite(cond_atom(a), lift(f, *l1), lift(f, *l2))
    return f(*args)


def assume1(t, a, val):
    if t.op == "ite" and t.args[0] is a:
        return t.args[1] if val else t.args[2]
    if t.op == "ite":
        return assume(t, a, val)
    return t


def under(t, c):
    """t, knowing condition c."""
    if c is TRUE or c is FALSE:
        return t
    # collect literals that c implies
    for a in atoms_of(c):
        hi = cof(c, a, True)
        lo = cof(c, a, False)
        if lo is FALSE:
            t = assume(t, a, True)
        elif hi is FALSE:
            t = assume(t, a, False)
    return t


_con_memo = {}


def constrain(t, c):
    """Generalised cofactor of the diagram t by the condition c."""
    if c is TRUE or c is FALSE:
        return t
    key = (t, c)
    r = _con_memo.get(key)
    if r is None:
        r = _con_memo[key] = _constrain(t, c)
    return r


def _constrain(t, c):
    if t.op != "ite":
        return under(t, c)
    tops = [x.args[0] for x in (t, c) if x.op == "ite"]
    a = min(tops, key=_rank)
    c1, c0 = cof1(c, a, True), cof1(c, a, False)
    t1, t0 = cof1(t, a, True), cof1(t, a, False)
    if c1 is FALSE:
        return constrain(assume(t0, a, False), c0)
    if c0 is FALSE:
        return constrain(assume(t1, a, True), c1)
    return node(a, constrain(t1, c1), constrain(t0, c0))


def cof1(t, a, val):
    if t.op == "ite" and t.args[0] is a:
        return t.args[1] if val else t.args[2]
    return t


_cof_memo = {}


def cof(t, a, val):
    if t.op != "ite":
        return t
    if t.args[0] is a:
        return t.args[1] if val else t.args[2]
    key = (t, a, val)
    r = _cof_memo.get(key)
    if r is not None:
        return r
    v = implied(t.args[0], a, val)
    if v is not None:
        r = cof(t.args[1] if v else t.args[2], a, val)
    else:
        r = node(t.args[0], cof(t.args[1], a, val), cof(t.args[2], a, val))
    _cof_memo[key] = r
    return r


# ------------------------------------------------------------ arithmetic


def lin_parts(t):
    """(const, {term: coef})"""
    if is_const(t) and type(cval(t)) in (int, bool):
        return int(cval(t)), {}
    if t.op == "lin":
        return t.args[0], dict(zip(t.args[1::2], t.args[2::2]))
    return 0, {t: 1}


def mk_lin(c, d):
    d = {k: v for k, v in d.items() if v}
    if not d:
        return const(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    args = [c]
    for k in sorted(d, key=lambda x: x.id):
        args += [k, d[k]]
    return _raw("lin", *args)


def lin_base(t):
    """(base, sign, const) with t = sign*base + const; base has no constant."""
    c, d = lin_parts(t)
    if not d:
        return t, 1, 0
    first = min(d, key=lambda x: x.id)
    s = 1 if d[first] > 0 else -1
    return mk_lin(0, {k: v * s for k, v in d.items()}), s, c


def add(a, b, sign=1):
    if sign == 1 and (a.op == "strcat" or b.op == "strcat" or ty(a) == "str" and ty(b) == "str"):
        return strcat(a, b)

    def f(a, b):
        if is_const(a) and is_const(b):
            try:
                return const(cval(a) + cval(b) if sign == 1 else cval(a) - cval(b))
            except TypeError:
                return _raw("arith", "+" if sign == 1 else "-", a, b)
        ta, tb = ty(a), ty(b)
        if sign == 1:
            if ta == "str" or tb == "str":
                return strcat(a, b)
            if (ta and ta[0] == "list") or (tb and tb[0] == "list"):
                return cat(a, b)
            if a.op == "tuple" and b.op == "tuple":
                return _raw("tuple", *(a.args + b.args))
            if "tuple" in (a.op, b.op) or (ta and ta[0] == "tuple"):
                return _raw("arith", "+", a, b)
        if ta and ta[0] == "set":
            return _raw("m", "difference", a, b)
        num = ("int", "float", "bool")
        if ta in num or tb in num or sign == -1:
            if any(is_const(x) and type(cval(x)) is float for x in (a, b)):
                return _raw("arith", "+" if sign == 1 else "-", a, b)
            c1, d1 = lin_parts(a)
            c2, d2 = lin_parts(b)
            for k, v in d2.items():
                d1[k] = d1.get(k, 0) + sign * v
            return mk_lin(c1 + sign * c2, d1)
        return _raw("arith", "+", a, b)

    return lift(f, a, b)


def sub(a, b):
    return add(a, b, -1)


def neg(a):
    def f(a):
        if is_const(a):
            return const(-cval(a))
        c, d = lin_parts(a)
        return mk_lin(-c, {k: -v for k, v in d.items()})

    return lift(f, a)


def mul(a, b):
    def f(a, b):
        if is_const(a) and is_const(b):
            try:
                return const(cval(a) * cval(b))
            except TypeError:
                return _raw("arith", "*", a, b)
        for x, y in ((a, b), (b, a)):
            if is_seq(x):
                if x.op == "list" and not x.args:
                    return x
                s = fresh_ix()
                return flat(y, s, x)
        for x, y in ((a, b), (b, a)):
            if is_const(x) and type(cval(x)) is int:
                c, d = lin_parts(y)
                return mk_lin(c * cval(x), {k: v * cval(x) for k, v in d.items()})
        return _raw("mul", *sorted((a, b), key=lambda x: x.id))

    return lift(f, a, b)


def arith(op, a, b):
    def f(a, b):
        if is_const(a) and is_const(b):
            try:
                x, y = cval(a), cval(b)
                return const({"/": lambda: x / y, "//": lambda: x // y, "%": lambda: x % y, "**": lambda: x**y}[op]())
            except Exception:
                pass
        return _raw("arith", op, a, b)

    return lift(f, a, b)


# ----------------------------------------------------------- comparisons


def ge0(t):
    def f(t):
        if is_const(t):
            return const(cval(t) >= 0)
        c, d = lin_parts(t)
        if len(d) == 1:
            (k, v), = d.items()
            if k.op == "len":
                if v > 0 and c >= 0:
                    return TRUE
                if v > 0 and c == -1:
                    return truthy(k.args[0])
                if v < 0 and c < 0:
                    return FALSE
                if v < 0 and c == 0:
                    return not_(truthy(k.args[0]))
            if k.op in ("ix", "bv") and v > 0 and c >= 0:
                return TRUE
        if d and all(v > 0 and (k.op in ("len", "ix", "bv")) for k, v in d.items()) and c >= 0:
            return TRUE
        if d and all(v < 0 and (k.op in ("len", "ix", "bv")) for k, v in d.items()) and c < 0:
            return FALSE
        # integers: choose polarity so that the first coefficient is positive
        first = min(d, key=lambda x: x.id)
        if d[first] < 0:
            # t>=0  <=>  not (-t-1 >= 0)
            return not_(cond_atom(_raw("ge0", mk_lin(-c - 1, {k: -v for k, v in d.items()}))))
        return cond_atom(_raw("ge0", mk_lin(c, d)))

    return lift(f, t)


def lt(a, b):
    def f(a, b):
        if is_const(a) and is_const(b):
            try:
                return const(cval(a) < cval(b))
            except TypeError:
                pass
        if a is b:
            return FALSE
        if a.op == "tuple" and b.op == "tuple" and len(a.args) == len(b.args) == 1:
            return lt(a.args[0], b.args[0])
        if is_int(a) and is_int(b):
            return ge0(sub(sub(b, a), ONE))
        return cond_atom(_raw("lt", a, b))

    return lift(f, a, b)


def le(a, b):
    def f(a, b):
        if is_int(a) and is_int(b):
            return ge0(sub(b, a))
        return not_(lt(b, a))

    return lift(f, a, b)


def eq(a, b):
    def f(a, b):
        if a is b:
            return TRUE
        if is_const(a) and is_const(b):
            return const(cval(a) == cval(b))
        if a in APART and b in APART and APART[a] & APART[b]:
            return FALSE
        if a.op == b.op == "glob" and a.args[0] in TYPENAMES and b.args[0] in TYPENAMES:
            return FALSE
        if is_const(a):
            a, b = b, a
        if is_const(b):
            v = cval(b)
            if v is None:
                return isnone(a)
            x = ty(a)
            if type(v) is str:
                if x in ("int", "float", "bool") or (x and x[0] in ("list", "dict", "set", "tuple", "inst")):
                    return FALSE
                if v == "" and x == "str":
                    return not_(truthy(a))
                if a.op == "strcat" and v == "":
                    return not_(truthy(a))
            if type(v) is bool and x == "bool":
                return truthy(a) if v else not_(truthy(a))
            if type(v) in (int, float) and (x == "str" or x and x[0] in ("list", "dict", "set", "tuple")):
                return FALSE
            if type(v) is int and (a.op == "lin" or x == "int"):
                c, d = lin_parts(a)
                base, s, c = lin_base(a)
                k = (v - c) * s
                if base.op == "len":
                    if k == 0:
                        return not_(truthy(base.args[0]))
                    if k < 0:
                        return FALSE
                if base.op in ("ix", "bv") and k < 0:
                    return FALSE
                return cond_atom(_raw("eq", base, const(k)))
            return cond_atom(_raw("eq", a, b))
        if is_int(a) and is_int(b):
            d = sub(a, b)
            base, s, c = lin_base(d)
            if is_const(d):
                return const(cval(d) == 0)
            if len(lin_parts(d)[1]) == 1 and base.op != "lin":
                return eq(base, const(-c * s))
            return cond_atom(_raw("eq", base, const(-c * s)))
        for x, y in ((a, b), (b, a)):
            if x.op == "list" and not x.args and is_seq(y):
                return not_(truthy(y))
            if x.op == "dictof" and x.args[0].op == "list" and not x.args[0].args and ty(y) and ty(y)[0] == "dict":
                return not_(truthy(y))
        if a.op == b.op and a.op in ("tuple", "list"):
            if len(a.args) != len(b.args):
                return FALSE
            return and_(*[eq(x, y) for x, y in zip(a.args, b.args)])
        if a.op == b.op == "key" and a.args[0] is b.args[0]:
            return eq(a.args[1], b.args[1])
        if b.id < a.id:
            a, b = b, a
        return cond_atom(_raw("eq", a, b))

    return lift(f, a, b)


def isnone(a):
    def f(a):
        if is_const(a):
            return const(cval(a) is None)
        if a.op in ATOMS or a.op in ("list", "cat", "flat", "tuple", "dictof", "setof", "obj", "lin", "strcat", "sjoin", "sorted", "len", "store", "astuple", "pyfn", "cls", "lam", "keys", "fmtv", "setadd", "setupd", "groupupd", "dictupd", "exc"):
            return FALSE
        x = ty(a)
        if x == "none":
            return TRUE
        if x is not None and x[0] != "opt":
            return FALSE
        if x is not None and x[0] == "opt" and x[1] and x[1][0] == "inst":
            return not_(truthy(a))
        if a.op == "first":
            return _first_pred(a, isnone)
        return cond_atom(_raw("isnone", a))

    return lift(f, a)


def _first_pred(a, p):
    return cond_atom(_raw("isnone" if p is isnone else "truthy", a))


def truthy(a):
    def f(a):
        op = a.op
        if op == "c":
            return const(bool(cval(a)))
        if op in ATOMS:
            return cond_atom(a)
        if op in ("list", "tuple"):
            return const(bool(a.args))
        if op in ("obj", "pyfn", "cls", "glob", "lam"):
            return TRUE
        if op == "cat" or op == "strcat":
            return or_(*[truthy(x) for x in a.args])
        if op in ("dictof", "setof", "sorted", "astuple", "keys"):
            return truthy(a.args[0])
        if op == "store" or op == "setadd":
            return TRUE
        if op == "groupupd":
            return or_(truthy(a.args[0]), truthy(a.args[2]))
        if op == "setupd":
            return or_(truthy(a.args[0]), truthy(a.args[1]))
        if op == "flat":
            h, n, b = a.args
            s = fresh_ix()
            return exists(n, s, truthy(open1(a, s)))
        if op == "len":
            return truthy(a.args[0])
        if op == "idx" and is_const(a.args[1]):
            tc = ty(a.args[0])
            if tc and len(tc) == 4 and tc[3] in NOTEMPTY:
                return TRUE
        if op == "fmtv":
            return TRUE if ty(a.args[0]) in ("int", "float") else cond_atom(_raw("truthy", a))
        x = ty(a)
        if op == "lin" or x == "int":
            return not_(eq(a, ZERO))
        if x == "none":
            return FALSE
        if x is not None and x[0] == "inst":
            return TRUE
        return cond_atom(_raw("truthy", a))

    return lift(f, a)


def is_(a, b):
    if a is b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if x is NONE:
            return isnone(y)
        if is_const(x) and type(cval(x)) in (bool, int, str):
            return eq(x, y)

    def f(a, b):
        if a is b:
            return TRUE
        for x, y in ((a, b), (b, a)):
            if is_const(x):
                return is_(x, y)
        if a.op in ("cls", "glob") and b.op in ("cls", "glob"):
            return const(a is b)
        if b.id < a.id:
            a, b = b, a
        if a.op in ("typeof",) or b.op == "typeof":
            return eq(a, b)
        return cond_atom(_raw("is", a, b))

    return lift(f, a, b)


def typeof(a):
    def f(a):
        x = ty(a)
        if isinstance(x, str) and x in ("int", "str", "float", "bool"):
            return glob(x)
        if x and x[0] in ("list", "dict", "set", "tuple"):
            return glob(x[0])
        return _raw("typeof", a)

    return lift(f, a)


def in_(x, c):
    def f(x, c):
        op = c.op
        if op in ("list", "tuple"):
            return or_(*[eq(x, y) for y in c.args])
        if op == "cat":
            return or_(*[in_(x, y) for y in c.args])
        if op in ("setof", "sorted", "astuple", "keys", "iterset", "iterof", "aslist"):
            return in_(x, c.args[0])
        if op == "setupd":
            return or_(in_(x, c.args[0]), in_(x, c.args[1]))
        if op == "setadd":
            return or_(eq(x, c.args[1]), in_(x, c.args[0]))
        if op == "store":
            return or_(eq(x, c.args[1]), in_(x, c.args[0]))
        if op == "del":
            return and_(not_(eq(x, c.args[1])), in_(x, c.args[0]))
        if op == "dictof":
            s = c.args[0]
            if s.op == "list":
                return or_(*[eq(x, p.args[0]) for p in s.args])
            if s.op == "flat":
                b = fresh_ix()
                body = open1(s, b)
                return exists(s.args[1], b, _any_pair(body, x))
            if s.op == "cat":
                return or_(*[in_(x, dictof(y)) for y in s.args])
        if op == "flat":
            b = fresh_ix()
            return exists(c.args[1], b, in_(x, open1(c, b)))
        if op == "call" and c.args[0] == "range":
            return and_(ge0(sub(x, c.args[1])), ge0(sub(sub(c.args[2], x), ONE)))
        if x.op == "key" and x.args[0] is c:
            return TRUE
        if x.op == "idx" and x.args[0] is c and ty(c) and ty(c)[0] == "list":
            return TRUE
        tc = ty(c)
        if tc and len(tc) == 4 and is_const(x) and cval(x) in REQUIRED.get(tc[3], ()):
            return TRUE
        if c in SHAPES and is_const(x) and type(cval(x)) is str:
            may, must = SHAPES[c]
            if cval(x) not in may:
                return FALSE
            if cval(x) in must:
                return TRUE
        return cond_atom(_raw("in", x, c))

    return lift(f, x, c)


REQUIRED = {"rule": {"production", "tokens"}, "om": {"production", "prev_classes", "next_classes"}, "white": {"default", "token_class", "consolidate"},
            "node": {"type"}, "edge": {"token", "cost"}}  # entries every such dict has
NOTEMPTY = {"constraints"}  # dicts without empty entries (derived_graph decides that)
APART = {}  # keys -> the mappings and sets they are the keys of
SHAPES = {}  # term -> (keys it may have, keys it has)


def _any_pair(body, x):
    def f(b):
        if b.op == "list":
            return or_(*[eq(x, p.args[0]) for p in b.args])
        return cond_atom(_raw("in", x, _raw("dictof", b)))

    return lift(f, body)


# -------------------------------------------------------------- sequences


def lst(*xs):
    return _raw("list", *xs)


def tup(*xs):
    return _raw("tuple", *xs)


def cat(*xs):
    out = []
    for x in xs:
        for p in seq_parts(x):
            if p.op == "list" and out and out[-1].op == "list":
                out[-1] = _raw("list", *(out[-1].args + p.args))
            else:
                out.append(p)
    if not out:
        return lst()
    if len(out) == 1:
        return out[0]
    return _raw("cat", *out)


def strcat(*xs):
    out = []
    for x in xs:
        for p in x.args if x.op == "strcat" else (x,):
            if is_const(p) and p is EMPTY_STR:
                continue
            if is_const(p) and out and is_const(out[-1]) and type(cval(p)) is str and type(cval(out[-1])) is str:
                out[-1] = const(cval(out[-1]) + cval(p))
            else:
                out.append(p)
    if not out:
        return EMPTY_STR
    if len(out) == 1:
        return out[0]
    return _raw("strcat", *out)


def fmtv(x):
    def f(x):
        if ty(x) == "str":
            return x
        if is_const(x):
            return const(str(cval(x)))
        return _raw("fmtv", x)

    return lift(f, x)


def sjoin(sep, s):
    if s.op == "list":
        out = []
        for i, x in enumerate(s.args):
            if i:
                out.append(sep)
            out.append(x)
        return strcat(*out)
    if sep is EMPTY_STR and s.op == "cat":
        return strcat(*[sjoin(sep, p) for p in s.args])
    if s.op == "ite":
        return ite(cond_atom(s.args[0]), sjoin(sep, s.args[1]), sjoin(sep, s.args[2]))
    return _raw("sjoin", sep, s)


def astuple(s):
    if s.op == "list":
        return tup(*s.args)
    if s.op in ("tuple", "astuple"):
        return s
    if s.op == "ite":
        return ite(cond_atom(s.args[0]), astuple(s.args[1]), astuple(s.args[2]))
    return _raw("astuple", s)


def aslist(s):
    """list(s)"""

    def f(s):
        if s.op == "astuple":
            return aslist(s.args[0])
        if s.op == "tuple":
            return lst(*s.args)
        if is_seq(s):
            return s
        if s.op in ("dictof", "store") or (ty(s) and ty(s)[0] == "dict"):
            return keys(s)
        return seq_of(s)

    return lift(f, s)


def seq_of(s):
    """Anything iterable, as the sequence of what iterating it gives."""

    def f(s):
        if s.op in ("astuple",):
            return seq_of(s.args[0])
        if s.op == "tuple":
            return lst(*s.args)
        if is_seq(s) or s.op == "keys":
            return s
        if s.op in ("dictof", "store", "del") or (ty(s) and ty(s)[0] == "dict"):
            return keys(s)
        if s.op == "call" and s.args[0] == "range":
            x = fresh_ix()
            return flat(sub(s.args[2], s.args[1]), x, lst(add(s.args[1], x)))
        if s.op == "setof" and s.args[0].op == "list" and len(s.args[0].args) < 2:
            return s.args[0]
        if s.op in ("setof", "setadd") or (ty(s) and ty(s)[0] == "set"):
            return _raw("iterset", s)
        if s.op in ("iterof", "iterset"):
            return s
        return _raw("iterof", s)

    return lift(f, s)


def length(s):
    def f(s):
        op = s.op
        if op == "c" and isinstance(cval(s), str):
            return const(len(cval(s)))
        if op in ("list", "tuple"):
            return const(len(s.args))
        if op in ("cat", "strcat"):
            r = ZERO
            for x in s.args:
                r = add(r, length(x))
            return r
        if op in ("sorted", "astuple", "keys", "iterset", "iterof", "aslist"):
            return length(s.args[0])
        if op == "setof" and s.args[0].op == "list" and len(s.args[0].args) < 2:
            return const(len(s.args[0].args))
        if op in ("setof", "dictof") and s.args[0].op == "list":
            ks = [k if op == "setof" else k.args[0] if k.op == "tuple" else None for k in s.args[0].args]
            if len(ks) < 2 or all(k in APART for k in ks) and len(set(ks)) == len(ks):
                return const(len(ks))
        if op == "setof" and s.args[0].op == "keys":
            return length(s.args[0])
        if op == "flat":
            b = fresh_ix()
            body = open1(s, b)
            return sum_(s.args[1], b, length(body))
        if op == "call" and s.args[0] == "range":
            return sub(s.args[2], s.args[1])
        if op == "slice" and s.args[1] is ZERO and is_const(s.args[2]) and type(cval(s.args[2])) is int and cval(s.args[2]) < 0:
            return _raw("len", s)
        return _raw("len", s)

    return lift(f, s)


def sum_(n, s, body):
    if s not in body.fs:
        return mul(n, body)
    if body.op == "ite" and s not in body.args[0].fs:
        return ite(cond_atom(body.args[0]), sum_(n, s, body.args[1]), sum_(n, s, body.args[2]))
    return bind("sum", s, n, body)


def key(d, i):
    """The i-th key of a mapping (or element of a set)."""
    if is_const(i) and d.op in ("dictof", "setof") and d.args[0].op == "list" and type(cval(i)) is int and 0 <= cval(i) < len(d.args[0].args):
        ps = d.args[0].args
        if d.op == "setof" and len(ps) == 1:
            return ps[0]
        if d.op == "dictof" and all(p.op == "tuple" and p.args[0] in APART for p in ps):
            return ps[cval(i)].args[0]
    return _raw("key", d, i)


def all_distinct(body, b):
    """Whether the pairs that body gives over b have different keys."""
    ks = {p.args[0] if len(x.args) == 1 and p.op == "tuple" else None for _, x in leaves(body) for p in (x.args if x.op == "list" else (x,))}
    if len(ks) > 1 or None in ks or any(x.op != "list" for _, x in leaves(body)):
        return False

    def injective(k):
        if k is b or k.op == "key" and k.args[1] is b:
            return True
        if k.op == "idx" and k.args[1] is b:
            s = k.args[0]
            while s.op in ("sorted", "astuple", "aslist"):
                s = s.args[0]
            return s.op in ("keys", "iterset") or ty(s) and ty(s)[0] == "set"
        if k.op == "lin":
            return any(x is b for x in k.args[1::2]) and len(k.args) == 3
        return k.op == "tuple" and any(injective(x) for x in k.args)

    return all(injective(k) for k in ks)


def distinct(es, make):
    """Those of es that are not the same as an earlier one, written out."""
    def go(i, got):
        if i == len(es):
            return make(*got)
        return ite(or_(*[eq(es[i], k) for k in got]), go(i + 1, got), go(i + 1, got + [es[i]]))
    return go(1, [es[0]]) if es else make()


def keys(d):
    def f(d):
        if d.op == "dictof":
            s = d.args[0]
            if s.op == "list" and all(eq(p.args[0], q.args[0]) is FALSE for i, p in enumerate(s.args) for q in s.args[:i]):
                return lst(*[p.args[0] for p in s.args])
            if EXPAND[0] and s.op == "list" and len(s.args) <= 4:
                return distinct([p.args[0] for p in s.args], lst)
            b = fresh_ix()
            if s.op == "flat" and all_distinct(open1(s, b), b):
                return flat(s.args[1], b, lift(lambda x: lst(*[p.args[0] for p in x.args]) if x.op == "list" else _raw("keys", _raw("dictof", x)), open1(s, b)))
        if d.op == "keys":
            return d
        return _raw("keys", d)

    return lift(f, d)


def idx(s, k):
    def f(s, k):
        op = s.op
        if op == "list" or op == "tuple":
            if is_const(k) and type(cval(k)) is int and -len(s.args) <= cval(k) < len(s.args):
                return s.args[cval(k)]
        if op == "c" and is_const(k):
            try:
                return const(cval(s)[cval(k)])
            except Exception:
                pass
        if op in ("astuple", "aslist"):
            return idx(s.args[0], k)
        if op == "obj" and is_const(k) and type(cval(k)) is int and s.args[0] in NAMEDTUPLES:
            fields = NAMEDTUPLES[s.args[0]]
            if -len(fields) <= cval(k) < len(fields):
                return attr(s, fields[cval(k)])
        if ty(s) and ty(s)[0] == "inst" and ty(s)[1] in NAMEDTUPLES and is_const(k) and type(cval(k)) is int:
            return attr(s, NAMEDTUPLES[ty(s)[1]][cval(k)])
        if op == "keys" or op == "iterset" or op == "iterof":
            if not (is_const(k) and type(cval(k)) is int and cval(k) < 0):
                return key(s.args[0], k)
        if op == "cat" and is_const(k) and type(cval(k)) is int:
            j = cval(k)
            if j >= 0 and s.args[0].op == "list" and j < len(s.args[0].args):
                return s.args[0].args[j]
            if j < 0 and s.args[-1].op == "list" and -j <= len(s.args[-1].args):
                return s.args[-1].args[j]
        if op == "cat" and not is_const(k):
            d = sub(k, length(s.args[0]))
            if is_const(d) and type(cval(d)) is int and cval(d) >= 0:
                return idx(cat(*s.args[1:]), d)
        if op == "flat" and s.args[2].op == "list" and len(s.args[2].args) == 1:
            if not (is_const(k) and cval(k) < 0):
                return open1(s, k).args[0]
            return open1(s, add(s.args[1], k)).args[0]
        if op == "flat" and k is ZERO:
            b = fresh_ix()
            body = open1(s, b)
            ls = [x for _, x in leaves(body)]
            if all(x.op == "list" and len(x.args) <= 1 for x in ls):
                p = truthy(body)
                v = lift(lambda x: x.args[0] if x.args else None_marker, body)
                return first(s.args[1], b, p, constrain(v, p))
        if op == "dictof":
            seq = s.args[0]
            if seq.op in ("cat", "ite") and is_const(k) and const_keys(seq, set()):
                e = entry(seq, k, lst())
                if all(x.args for _, x in leaves(e)):
                    return lift(lambda x: x.args[0].args[1], e)
                # where it is there
                p = truthy(e)
                if p is not FALSE:
                    return lift(lambda x: x.args[0].args[1] if x.args else _raw("idx", s, k), constrain(e, p))
            if seq.op == "list":
                ks = [p.args[0] for p in seq.args]
                for p in reversed(seq.args):
                    if p.args[0] is k:
                        return p.args[1]
                if not all(is_const(x) for x in ks) or not is_const(k):
                    r = None
                    if ks and all(is_const(x) for x in ks) and len(ks) <= 12:
                        r = _raw("idx", s, k)
                    return r or _raw("idx", s, k)
            if seq.op == "flat" and seq.args[2].op == "list" and len(seq.args[2].args) == 1 and seq.args[2].args[0].op == "tuple":
                b = fresh_ix()
                p = open1(seq, b).args[0]
                kk = p.args[0]
                if kk.op in ("idx", "key") and kk.args[1] is b and k.op == kk.op and k.args[0] is kk.args[0] and b not in kk.args[0].fs:
                    return subst(p.args[1], {b: k.args[1]})
                if kk.op == "key" and kk.args[1] is b and b not in kk.args[0].fs:
                    # value in terms of the key only
                    v = p.args[1]
                    v2 = subst(v, {kk: k})
                    if b not in v2.fs:
                        return v2
        if op == "store":
            c = eq(k, s.args[1])
            if c is TRUE:
                return s.args[2]
            if c is FALSE:
                return idx(s.args[0], k)
        if op == "del":
            if eq(k, s.args[1]) is FALSE:
                return idx(s.args[0], k)
        if op == "slice":
            lo, hi = s.args[1], s.args[2]
            if is_const(lo) and type(cval(lo)) is int and cval(lo) >= 0 and not (is_const(k) and cval(k) < 0):
                return idx(s.args[0], add(k, lo))
        if op == "call" and s.args[0] == "range" and not (is_const(k) and cval(k) < 0):
            return add(s.args[1], k)
        # s[len(s)-c] is s[-c]
        if k.op == "lin":
            c, d = lin_parts(k)
            if len(d) == 1 and c < 0:
                (b, v), = d.items()
                if v == 1 and b.op == "len" and b.args[0] is s:
                    return idx(s, const(c))
        return _raw("idx", s, k)

    return lift(f, s, k)


def slice_(s, lo, hi):
    def f(s, lo, hi):
        if lo is NONE:
            lo = ZERO
        if hi.op == "len" and hi.args[0] is s:
            hi = NONE
        if lo is ZERO and hi is NONE:
            return s
        if hi.op == "lin":
            c, d = lin_parts(hi)
            if len(d) == 1 and c < 0:
                (b, v), = d.items()
                if v == 1 and b.op == "len" and b.args[0] is s:
                    hi = const(c)
        if s.op in ("list", "tuple") and is_const(lo) and is_const(hi):
            return _raw(s.op, *s.args[cval(lo):cval(hi)])
        if s.op == "c" and type(cval(s)) is str and is_const(lo) and is_const(hi):
            return const(cval(s)[cval(lo):cval(hi)])
        if s.op == "cat" and lo is ZERO and is_const(hi) and cval(hi) is not None and cval(hi) < 0 and s.args[-1].op == "list" and len(s.args[-1].args) >= -cval(hi):
            return cat(*(s.args[:-1] + (lst(*s.args[-1].args[:cval(hi)]),)))
        return _raw("slice", s, lo, hi)

    return lift(f, s, lo, hi)


NAMEDTUPLES = {}


_loopattr = {}


def attr(o, name):
    def f(o):
        if o.op == "obj":
            if name in o.args[1]:
                return o.args[2 + o.args[1].index(name)]
        if o.op == "ostore":
            if o.args[1] == name:
                return o.args[2]
            return attr(o.args[0], name)
        if o.op == "loopout":
            r = _loopattr.get((o, name))
            if r is None:
                syms, inits, kind, nexts, out, label = open_loop(o)
                r = _loopattr[(o, name)] = mk_loop(syms, inits, kind, nexts, attr(out, name), label)
            return r
        return _raw("attr", o, name)

    return lift(f, o)


def ostore(o, name, v):
    if o.op == "obj":
        names = o.args[1]
        if name in names:
            i = 2 + names.index(name)
            return _raw("obj", *(o.args[:i] + (v,) + o.args[i + 1:]))
        new = sorted(list(names) + [name])
        vals = dict(zip(names, o.args[2:]))
        vals[name] = v
        return _raw("obj", o.args[0], tuple(new), *[vals[n] for n in new])
    # canonical order of independent attribute stores
    chain = {}
    base = o
    while base.op == "ostore":
        chain.setdefault(base.args[1], base.args[2])
        base = base.args[0]
    chain[name] = v
    if base.op == "ite":
        return _raw("ostore", o, name, v)
    for n in sorted(chain):
        if chain[n].op == "attr" and chain[n].args[0] is base and chain[n].args[1] == n:
            continue
        base = _raw("ostore", base, n, chain[n])
    return base


def obj(cls, d):
    names = tuple(sorted(d))
    return _raw("obj", cls, names, *[d[n] for n in names])


def const_keys(s, out):
    """Constant keys of a diagram over sequences of pairs, or None."""
    if s.op == "ite":
        return const_keys(s.args[1], out) and const_keys(s.args[2], out)
    if s.op == "cat":
        return all(const_keys(x, out) for x in s.args)
    if s.op == "list":
        for p in s.args:
            if p.op != "tuple" or len(p.args) != 2 or not is_const(p.args[0]) or type(cval(p.args[0])) is not str:
                return False
            out.add(p.args[0])
        return len(out) <= 16
    return False


def entry(s, k, default):
    """Pair of constant key k in s, as a sequence of at most one."""
    if s.op == "ite":
        return ite(cond_atom(s.args[0]), entry(s.args[1], k, default), entry(s.args[2], k, default))
    if s.op == "cat":
        for x in s.args:
            default = entry(x, k, default)
        return default
    for p in reversed(s.args):
        if p.args[0] is k:
            return lst(p)
    return default


def dictof(s):
    """Mapping of a sequence of pairs."""
    if s.op in ("ite", "cat"):
        ks = set()
        if const_keys(s, ks):
            s = cat(*[entry(s, k, lst()) for k in sorted(ks, key=cval)])
            if s.op != "list":
                return _raw("dictof", s)
    if s.op == "ite":
        return ite(cond_atom(s.args[0]), dictof(s.args[1]), dictof(s.args[2]))
    if s.op == "list" and all(p.op == "tuple" and len(p.args) == 2 for p in s.args):
        ks = {}
        for p in s.args:
            ks[p.args[0]] = p
        if all(is_const(k) and type(cval(k)) is str for k in ks):
            s = lst(*[ks[k] for k in sorted(ks, key=cval)])
    if s.op == "flat" and s.args[2].op == "list" and len(s.args[2].args) == 1:
        # {k: v for k, v in d.items()} is d
        b = fresh_ix()
        p = open1(s, b).args[0]
        if p.op == "tuple" and p.args[0].op == "key" and p.args[0].args[1] is b:
            d = p.args[0].args[0]
            if p.args[1] is _raw("idx", d, p.args[0]) and s.args[1] is _raw("len", d):
                return d
    return _raw("dictof", s)


def store(d, k, v):
    def f(d, k):
        if d.op == "dictof" and d.args[0].op == "list" and is_const(k):
            ps = d.args[0].args
            if all(is_const(p.args[0]) for p in ps):
                return dictof(lst(*([p for p in ps if p.args[0] is not k] + [tup(k, v)])))
        if d.op == "dictof" and d.args[0].op in ("cat", "ite") and is_const(k) and type(cval(k)) is str and const_keys(d.args[0], set()):
            return dictof(cat(d.args[0], lst(tup(k, v))))
        if d.op == "list" and is_const(k) and type(cval(k)) is int and -len(d.args) <= cval(k) < len(d.args):
            a = list(d.args)
            a[cval(k)] = v
            return lst(*a)
        if d.op == "cat" and is_const(k) and type(cval(k)) is int and cval(k) < 0 and d.args[-1].op == "list" and len(d.args[-1].args) >= -cval(k):
            a = list(d.args[-1].args)
            a[cval(k)] = v
            return cat(*(d.args[:-1] + (lst(*a),)))
        if v.op == "idx" and v.args[0] is d and v.args[1] is k:
            return d
        base = strip(d, k)
        # order of stores under different constant keys does not matter
        if base.op == "store" and is_const(k) and is_const(base.args[1]) and base.args[1] is not k and type(cval(k)) is str and type(cval(base.args[1])) is str and cval(k) < cval(base.args[1]):
            return _raw("store", store(base.args[0], k, v), base.args[1], base.args[2])
        return _raw("store", base, k, v)

    # keys are lifted, mappings are not
    if k.op == "ite":
        return ite(cond_atom(k.args[0]), store(d, k.args[1], v), store(d, k.args[2], v))
    return f(d, k)


def strip(d, k):
    """d without earlier stores under k (which are about to be replaced)."""
    if d.op == "store":
        if d.args[1] is k:
            return strip(d.args[0], k)
        if eq(d.args[1], k) is FALSE:
            b = strip(d.args[0], k)
            return d if b is d.args[0] else _raw("store", b, d.args[1], d.args[2])
        return d
    if d.op == "ite":
        hi, lo = strip(d.args[1], k), strip(d.args[2], k)
        if hi is lo:
            return hi
        if hi is d.args[1] and lo is d.args[2]:
            return d
        return ite(cond_atom(d.args[0]), hi, lo)
    return d


def del_(d, k):
    if d.op == "dictof" and d.args[0].op == "list" and is_const(k):
        return dictof(lst(*[p for p in d.args[0].args if p.args[0] is not k]))
    if d.op == "dictof" and d.args[0].op in ("cat", "ite") and is_const(k):
        ks = set()
        if const_keys(d.args[0], ks):
            return dictof(cat(*[entry(d.args[0], x, lst()) for x in sorted(ks, key=cval) if x is not k]))
    if d.op == "store":
        if d.args[1] is k:
            return del_(d.args[0], k)
        if eq(d.args[1], k) is FALSE:
            return store(del_(d.args[0], k), d.args[1], d.args[2])
    return _raw("del", d, k)


def setof(s):
    if s.op == "ite":
        return ite(cond_atom(s.args[0]), setof(s.args[1]), setof(s.args[2]))
    if s.op in ("sorted", "astuple", "aslist"):
        return setof(s.args[0])
    if s.op in ("iterset",):
        return s.args[0]
    if s.op == "iterof" and ty(s.args[0]) and ty(s.args[0])[0] == "set":
        return s.args[0]
    if ty(s) and ty(s)[0] == "set":
        return s
    if ty(s) and ty(s)[0] == "dict":
        return setof(keys(s))
    if s.op == "list":
        u = []
        for x in s.args:
            if x not in u:
                u.append(x)
        s = lst(*sorted(u, key=lambda x: x.id))
    return _raw("setof", s)


def setadd(s, x):
    def f(s):
        if s.op == "setof" and s.args[0].op == "list":
            return setof(lst(*(s.args[0].args + (x,))))
        if s.op == "setof":
            return setof(cat(s.args[0], lst(x)))
        return _raw("setadd", s, x)

    return lift(f, s)


def mk_sorted(s, lam, rev):
    if s.op == "sorted" and s.args[1] is lam and s.args[2] is rev:
        return s
    if s.op in ("iterset", "iterof", "astuple"):
        s = s.args[0]
    if s.op == "list" and len(s.args) <= 1:
        return s
    if s.op == "setof" and s.args[0].op == "list" and len(s.args[0].args) <= 1:
        return s.args[0]
    if EXPAND[0] and s.op == "list" and len(s.args) == 2 and lam.op == "lam" and rev in (TRUE, FALSE):
        x, y = s.args
        p, q = open1(lam, x), open1(lam, y)
        return ite(lt(p, q) if rev is TRUE else lt(q, p), lst(y, x), s)
    return _raw("sorted", s, lam, rev)


# ---------------------------------------------------------------- binders


def subst(t, m, memo=None):
    """Replace terms (leaves, mostly) by others and renormalise."""
    if memo is None:
        memo = {}
        ks = set(m)
        deep = any(k.op not in ("ix", "ls") for k in ks)
        memo[None] = deep
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        r = m[t]
        memo[t] = r
        return r
    if not memo[None] and not any(k in t.fs for k in m):
        return t
    if not t.args or t.op == "c":
        return t
    if t.op in BINDERS:
        r = _subst_binder(t, m, memo)
    else:
        na = [subst(a, m, memo) if type(a) is T else a for a in t.args]
        if all(x is y for x, y in zip(na, t.args)):
            r = t
        elif t.op in ATOMS:
            r = mk(t.op, *na)
        elif t.op == "ite":
            c = na[0]
            r = ite(c if c.op == "ite" or c in (TRUE, FALSE) else truthy(c), na[1], na[2])
        else:
            r = mk(t.op, *na)
    if t.op in ATOMS and r is t:
        pass
    memo[t] = r
    return r


def _subst_binder(t, m, memo):
    memo2 = {None: memo[None]}
    sure = not memo[None] and any(k in b.fs for b in t.args if type(b) is T for k in m)
    return map_binder(t, lambda x: subst(x, m, memo2), sure)


def rewrite(t, g, memo=None):
    """t with g applied to every part, the innermost first."""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if not t.args or t.op == "c":
        r = g(t)
    else:
        if t.op in BINDERS:
            m2 = {}
            r = map_binder(t, lambda x: rewrite(x, g, m2))
        else:
            na = [rewrite(a, g, memo) if type(a) is T else a for a in t.args]
            if all(x is y for x, y in zip(na, t.args)):
                r = t
            elif t.op == "ite":
                c = na[0]
                r = ite(c if c.op == "ite" or c in (TRUE, FALSE) else truthy(c), na[1], na[2])
            else:
                r = mk(t.op, *na)
        r = g(r)
    memo[t] = r
    return r


def map_binder(t, f, sure=False):
    """Apply f to all parts of a binding term (which f must not capture)."""
    if t.op in ("loopout", "loopexit"):
        h, tys, n, label = t.args[:4]
        inits, body = t.args[4:4 + n], t.args[4 + n:]
        new_inits = [f(x) for x in inits]
        if not sure and all(f(x) is x for x in body) and all(x is y for x, y in zip(new_inits, inits)):
            return t
        syms, _, kind, nexts, out, _ = open_loop(t)
        nk, nn, no = f(kind), [f(x) for x in nexts], (f(out) if out is not None else None)
        return mk_loop(syms, new_inits, nk, nn, no, label)
    n = f(t.args[1])
    if not sure and n is t.args[1] and all(f(x) is x for x in t.args[2:]):
        return t
    s = fresh_ix()
    mm = {}
    lm = {_raw("bv", t.args[0]): s}
    return rebuild_binder(t.op, n, s, [f(_open(b, lm, t.args[0], mm)) for b in t.args[2:]])


def rebuild_binder(op, n, s, bodies):
    if op == "flat":
        return flat(n, s, bodies[0])
    if op == "exists":
        return exists(n, s, bodies[0])
    if op == "first":
        return first(n, s, bodies[0], bodies[1])
    if op == "sum":
        return sum_(n, s, bodies[0])
    if op == "lam":
        return lam(s, bodies[0])
    raise AssertionError(op)


def _open(t, lm, h, memo):
    """Replace bound variables of height h (not those of inner binders of height h)."""
    r = memo.get(t)
    if r is not None:
        return r
    if t in lm:
        r = lm[t]
    elif not t.args or t.op == "c":
        r = t
    elif t.op in BINDERS:
        # outer parts may mention our variable; bodies may too, unless shadowed
        if t.args[0] == h:
            if t.op in ("loopout", "loopexit"):
                n = t.args[2]
                na = list(t.args[:4]) + [_open(a, lm, h, memo) for a in t.args[4:4 + n]] + list(t.args[4 + n:])
            else:
                na = [t.args[0]] + [_open(a, lm, h, memo) if type(a) is T else a for a in t.args[1:2]] + list(t.args[2:])
            r = t if all(x is y for x, y in zip(na, t.args)) else _raw(t.op, *na)
        else:
            na = [_open(a, lm, h, memo) if type(a) is T else a for a in t.args]
            r = t if all(x is y for x, y in zip(na, t.args)) else _raw(t.op, *na)
    else:
        na = [_open(a, lm, h, memo) if type(a) is T else a for a in t.args]
        if all(x is y for x, y in zip(na, t.args)):
            r = t
        elif t.op == "ite":
            r = ite(cond_atom(na[0]) if na[0].op in ATOMS else na[0], na[1], na[2])
        else:
            r = mk(t.op, *na)
    memo[t] = r
    return r


def open1(t, x):
    """Body of a one-variable binder with its variable replaced by x."""
    return open_body(t, 2, x)


def open_body(t, i, x):
    h = t.args[0]
    if x.op == "ix":
        return _open(t.args[i], {_raw("bv", h): x}, h, {})
    s = fresh_ix()
    return subst(_open(t.args[i], {_raw("bv", h): s}, h, {}), {s: x})


def _close(t, m, memo):
    """Replace free symbols by bound variables (and reorder accordingly)."""
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    elif not any(k in t.fs for k in m):
        r = t
    else:
        na = [_close(a, m, memo) if type(a) is T else a for a in t.args]
        if t.op in BINDERS:
            r = _raw(t.op, *na)
        elif t.op == "ite":
            r = ite(cond_atom(na[0]) if na[0].op in ATOMS else na[0], na[1], na[2])
        else:
            r = mk(t.op, *na)
    memo[t] = r
    return r


def bind(op, s, n, *bodies):
    h = 1 + max(b.h for b in bodies)
    m = {s: _raw("bv", h)}
    mm = {}
    return _raw(op, h, n, *[_close(b, m, mm) for b in bodies])


def lam(s, body):
    return bind("lam", s, NONE, body)


def flat(n, s, body):
    """Concatenation over index s < n of the sequences body(s)."""
    if n.op == "ite":
        return ite(cond_atom(n.args[0]), flat(n.args[1], s, body), flat(n.args[2], s, body))
    if body.op == "list" and not body.args:
        return body
    if is_const(n) and type(cval(n)) is int and cval(n) <= 12:
        return cat(*[subst(body, {s: const(i)}) for i in range(max(0, cval(n)))])
    if body.op == "ite" and s not in body.args[0].fs:
        return ite(cond_atom(body.args[0]), flat(n, s, body.args[1]), flat(n, s, body.args[2]))
    if body.op == "list" and len(body.args) == 1 and s in body.fs:
        e = body.args[0]
        if e.op == "idx" and e.args[1] is s and s not in e.args[0].fs and n is length(e.args[0]) and (is_seq(e.args[0])):
            return e.args[0]
        if e.op == "idx" and e.args[1] is s and s not in e.args[0].fs and n is length(e.args[0]):
            x = ty(e.args[0])
            if x and x[0] == "opt" and x[1] and x[1][0] == "list":
                return _raw("iterof", e.args[0])
        if e.op == "key" and e.args[1] is s and s not in e.args[0].fs and n is length(e.args[0]):
            d = e.args[0]
            return _raw("iterset", d) if ty(d) and ty(d)[0] == "set" else (_raw("keys", d) if ty(d) and ty(d)[0] == "dict" else _raw("iterof", d))
    return bind("flat", s, n, body)


def exists(n, s, p):
    if p is FALSE:
        return FALSE
    if n.op == "ite":
        return ite(cond_atom(n.args[0]), exists(n.args[1], s, p), exists(n.args[2], s, p))
    if s not in p.fs:
        return and_(p, ge0(sub(n, ONE)))
    if is_const(n) and type(cval(n)) is int and cval(n) <= 12:
        return or_(*[subst(p, {s: const(i)}) for i in range(max(0, cval(n)))])
    # conditions that do not depend on the variable move out
    for a in atoms_of(p):
        if s not in a.fs:
            return ite(cond_atom(a), exists(n, s, cof(p, a, True)), exists(n, s, cof(p, a, False)))
    # iterating over a concatenation of single elements fuses: idx(flat)
    # dispatch over the keys of a mapping
    if n.op == "len":
        d = n.args[0]
        k = _raw("key", d, s)
        ks = []
        for a in atoms_of(p):
            if a.op == "eq" and k in a.args:
                o = a.args[1] if a.args[0] is k else a.args[0]
                if is_const(o):
                    ks.append((o, a))
        if ks:
            rest = p
            for o, a in ks:
                rest = cof(rest, a, False)
            if rest is FALSE:
                parts = []
                for o, a in ks:
                    q = cof(p, a, True)
                    for o2, a2 in ks:
                        if a2 is not a:
                            q = cof(q, a2, False)
                    q = subst(q, {k: o})
                    if s in q.fs:
                        parts = None
                        break
                    parts.append(and_(in_(o, d), q))
                if parts is not None:
                    return or_(*parts)
        # some element equals x
        if p.op == "ite" and p.args[1] is TRUE and p.args[2] is FALSE and p.args[0].op == "eq":
            e = p.args[0].args
            for x, y in (e, e[::-1]):
                if y.op in ("idx", "key") and y.args[1] is s and y.args[0] is d and s not in x.fs:
                    return in_(x, d)
    # disjunction of alternatives: only split when it is a plain "or" of atoms
    return cond_atom(bind("exists", s, n, p))


def forall(n, s, p):
    return not_(exists(n, s, not_(p)))


def first(n, s, p, v):
    """v at the first index for which p holds."""
    if n.op == "ite":
        return ite(cond_atom(n.args[0]), first(n.args[1], s, p, v), first(n.args[2], s, p, v))
    if s not in v.fs:
        return v
    for a in atoms_of(p):
        if s not in a.fs:
            return ite(cond_atom(a), first(n, s, cof(p, a, True), v), first(n, s, cof(p, a, False), v))
    if p is TRUE:
        return subst(v, {s: ZERO})
    v = under(v, p)
    if s not in v.fs:
        return v
    if v.op == "ite" and s not in v.args[0].fs:
        return ite(cond_atom(v.args[0]), first(n, s, p, v.args[1]), first(n, s, p, v.args[2]))
    if v.op in ("strcat", "cat"):
        # what does not depend on the index is outside
        i, j = 0, len(v.args)
        while i < j and s not in v.args[i].fs:
            i += 1
        while j > i and s not in v.args[j - 1].fs:
            j -= 1
        if (i, j) != (0, len(v.args)):
            f = strcat if v.op == "strcat" else cat
            return f(*(list(v.args[:i]) + [first(n, s, p, f(*v.args[i:j]))] + list(v.args[j:])))
    if is_const(n) and type(cval(n)) is int and cval(n) <= 12:
        r = NONE
        for i in reversed(range(max(0, cval(n)))):
            m = {s: const(i)}
            r = ite(subst(p, m), subst(v, m), r) if i < cval(n) - 1 else subst(v, m)
        return r
    return bind("first", s, n, p, v)


# ------------------------------------------------------------------ loops
# A loop is a set of state variables with initial and next values and a
# diagram `kind` with leaves 'cont' (next iteration) or an exit label.


def lbl(x):
    return _raw("lbl", x)


CONT, BRK = lbl("cont"), lbl("brk")


def kind_is(kind, label):
    """Condition under which kind has this leaf."""
    if kind.op == "ite":
        return ite(cond_atom(kind.args[0]), kind_is(kind.args[1], label), kind_is(kind.args[2], label))
    return TRUE if kind is label else FALSE


def _look(t, depth=0):
    """What a term looks like, whatever the names in it."""
    if type(t) is not T:
        return repr(t)
    if t.op in ("c", "root", "glob"):
        return t.op + repr(t.args[-1])
    if t.op in ("sym", "ls", "ix", "bv", "ite") or depth > 2:
        return t.op + repr(ty(t))
    return t.op + "(" + ",".join(_look(x, depth + 1) for x in t.args) + ")"


def _closure(syms, nexts, kind, out, inits=None):
    order = _closure0(syms, nexts, kind, out)
    if inits is None:
        return order
    # (the order of conditions is not the same everywhere)
    at = {s: _look(i) for s, i in zip(syms, inits)}
    return sorted(order, key=lambda s: at[s])


def _closure0(syms, nexts, kind, out):
    order, seen = [], set()
    pos = {s: i for i, s in enumerate(syms)}

    def visit(t):
        # depth first, in order of the term
        stack = [t]
        done = set()
        while stack:
            x = stack.pop()
            if x in done:
                continue
            done.add(x)
            if x in pos:
                if x not in seen:
                    seen.add(x)
                    order.append(x)
                continue
            if not any(s in x.fs for s in syms):
                continue
            for a in reversed(x.args):
                if type(a) is T:
                    stack.append(a)

    if out is not None:
        visit(out)
    visit(kind)
    i = 0
    while i < len(order):
        visit(nexts[pos[order[i]]])
        i += 1
    return order


def canon_key_sort(t):
    return t


def _attrs_of(v, t):
    """Names of the attributes of v that t uses; None if it uses v otherwise."""
    out, st, seen = set(), [t], set()
    while st:
        x = st.pop()
        if x in seen or v not in x.fs:
            continue
        seen.add(x)
        if x is v:
            return None
        if x.op == "attr" and x.args[0] is v:
            out.add(x.args[1])
            continue
        st.extend(a for a in x.args if type(a) is T)
    return out


def _split_object(syms, inits, kind, nexts, out):
    """State variables that are objects of which only attributes matter are
    replaced by those attributes."""
    for j, v in enumerate(syms):
        if not any(x.op == "ostore" for _, x in leaves(nexts[j])):
            continue
        names = set()
        bad = False
        for t in [kind] + ([out] if out is not None else []) + [x for i, x in enumerate(nexts) if i != j]:
            u = _attrs_of(v, t)
            if u is None:
                bad = True
                break
            names |= u
        done = {}
        while not bad and names - set(done):
            for n in sorted(names - set(done)):
                done[n] = attr(nexts[j], n)
                u = _attrs_of(v, done[n])
                if u is None:
                    bad = True
                    break
                names |= u
        if bad:
            continue
        m, new = {}, []
        for n in sorted(names):
            a = _raw("attr", v, n)
            w = fresh("ls", ty(a) if ty(a) is not None else ty(attr(inits[j], n)))
            m[a] = w
            new.append((w, attr(inits[j], n), done[n]))
        rest = [i for i in range(len(syms)) if i != j]
        return ([syms[i] for i in rest] + [w for w, _, _ in new], [inits[i] for i in rest] + [i0 for _, i0, _ in new], subst(kind, m),
                [subst(nexts[i], m) for i in rest] + [subst(x, m) for _, _, x in new], subst(out, m) if out is not None else None)
    return None


def mk_loop(syms, inits, kind, nexts, out, label):
    """Value of out (or truth of leaving by label) for a loop."""
    isout = out is not None
    while True:
        r = _split_object(syms, inits, kind, nexts, out)
        if r is None:
            break
        syms, inits, kind, nexts, out = r
    # what never changes is replaced by its initial value
    changed = True
    syms, inits, nexts = list(syms), list(inits), list(nexts)
    while changed:
        changed = False
        for s, i0, nx in zip(list(syms), list(inits), list(nexts)):
            if nx is s:
                m = {s: i0}
                j = syms.index(s)
                del syms[j], inits[j], nexts[j]
                nexts = [subst(x, m) for x in nexts]
                kind = subst(kind, m)
                if isout:
                    out = subst(out, m)
                changed = True
                break
    if not isout:
        k = kind_is(kind, lbl(label))
        if k is FALSE:
            return FALSE
        if not any(x not in (CONT, lbl(label)) for _, x in leaves(kind)):
            return TRUE
    # a test of what does not change, by which the loop is not entered at all
    ss = set(syms)
    inv = [a for a in atoms_of(kind) if not any(s in a.fs for s in ss)]
    k00 = subst(kind, {s: i for s, i in zip(syms, inits)}) if inv else None
    for a in inv:
        for val in (True, False):
            k0 = assume(k00, a, val)
            if k0.op == "lbl" and k0 is not CONT:
                rs = []
                for v in (True, False):
                    f = lambda t: assume(t, a, v)
                    rs.append(mk_loop(syms, [f(i) for i in inits], f(kind), [f(n) for n in nexts], f(out) if isout else None, label))
                return ite(cond_atom(a), *rs)
    order = _closure(syms, nexts, kind, out, inits)
    pos = {s: i for i, s in enumerate(syms)}
    inits = [inits[pos[s]] for s in order]
    nexts = [nexts[pos[s]] for s in order]
    syms = order
    care = kind_is(kind, CONT)
    nexts = [constrain(x, care) for x in nexts]
    if isout:
        out = constrain(out, kind_is(kind, lbl(label)))
        order = _closure(syms, nexts, kind, out, inits)
        if len(order) < len(syms) or order != syms:
            return mk_loop2(syms, inits, kind, nexts, out, label)
    r = closed_form(syms, inits, kind, nexts, out, label)
    if r is not None:
        return r
    # zero trips known
    z = {s: i for s, i in zip(syms, inits)}
    k0 = subst(kind, z)
    if k0 is lbl(label) and isout:
        return subst(out, z)
    if k0.op == "lbl" and k0 is not CONT and not isout:
        return TRUE if k0 is lbl(label) else FALSE
    return _mk_loop_raw(syms, inits, kind, nexts, out, label)


def mk_loop2(syms, inits, kind, nexts, out, label):
    order = _closure(syms, nexts, kind, out, inits)
    pos = {s: i for i, s in enumerate(syms)}
    return mk_loop_fin(order, [inits[pos[s]] for s in order], kind, [nexts[pos[s]] for s in order], out, label)


def mk_loop_fin(syms, inits, kind, nexts, out, label):
    r = closed_form(syms, inits, kind, nexts, out, label)
    if r is not None:
        return r
    return _mk_loop_raw(syms, inits, kind, nexts, out, label)


def _mk_loop_raw(syms, inits, kind, nexts, out, label):
    body = [kind] + list(nexts) + ([out] if out is not None else [])
    h = 1 + max(b.h for b in body)
    m = {s: _raw("lv", h, i, TYPES.get(s)) for i, s in enumerate(syms)}
    mm = {}
    closed = [_close(b, m, mm) for b in body]
    tys = ("lv", tuple(TYPES.get(s) for s in syms), ty(out) if out is not None else "bool")
    op = "loopout" if out is not None else "loopexit"
    r = _raw(op, h, tys, len(syms), label, *(list(inits) + closed))
    return cond_atom(r) if op == "loopexit" else r


def open_loop(t):
    """(syms, inits, kind, nexts, out, label) of a loop term, opened."""
    h, tys, n, label = t.args[:4]
    inits, body = t.args[4:4 + n], t.args[4 + n:]
    syms = [fresh("ls", tys[1][i]) for i in range(n)]
    lm = {_raw("lv", h, i, tys[1][i]): s for i, s in enumerate(syms)}
    mm = {}
    ob = [_open(b, lm, h, mm) for b in body]
    return syms, list(inits), ob[0], ob[1:1 + n], (ob[1 + n] if t.op == "loopout" else None), label


def counter_of(syms, inits, kind, nexts):
    """(counter, n, kind in the loop) when the loop counts from 0 to n."""
    for s, i0, nx in zip(syms, inits, nexts):
        if nx is not add(s, ONE) or not is_const(i0) or type(cval(i0)) is not int:
            continue
        # guard: ge0(n - s - 1)
        for a in atoms_of(kind):
            g = None
            if a.op == "ge0" and s in a.fs:
                c, d = lin_parts(a.args[0])
                if s not in d or any(s in k.fs for k in d if k is not s):
                    continue
                if d[s] == -1:  # c - s + rest >= 0
                    n = mk_lin(c + 1, {k: v for k, v in d.items() if k is not s})
                    inside, outside = cof(kind, a, True), cof(kind, a, False)
                elif d[s] == 1:  # s + c + rest >= 0 is false inside
                    n = neg(mk_lin(c, {k: v for k, v in d.items() if k is not s}))
                    inside, outside = cof(kind, a, False), cof(kind, a, True)
                else:
                    continue
                if outside is not BRK:
                    continue
                if any(x in n.fs for x in syms):
                    continue
                return s, i0, n, inside
    return None


def closed_form(syms, inits, kind, nexts, out, label):
    if not syms:
        if kind is lbl(label):
            return out if out is not None else TRUE
        return None
    ct = counter_of(syms, inits, kind, nexts)
    if ct is None:
        return None
    i, i0, n, inside = ct
    if i0 is not ZERO:
        # shift so that it counts from zero
        sft = {i: add(i, i0)}
        kind = subst(kind, sft)
        nexts = [subst(x, sft) if s is not i else x for s, x in zip(syms, nexts)]
        if out is not None:
            out = subst(out, sft)
        inits = [ZERO if s is i else x for s, x in zip(syms, inits)]
        return mk_loop(syms, inits, kind, nexts, out, label)
    others = [s for s in syms if s is not i]
    L = lbl(label)
    ix = fresh_ix()
    if inside is CONT:
        # plain traversal; leaves only at the end
        if out is None:
            return TRUE if label == "brk" else FALSE
        vals = _closed_vars(syms, inits, nexts, i, n, ix, TRUE)
        if vals is None:
            return None
        need = [s for s in syms if s in out.fs]
        if any(s not in vals for s in need):
            return None
        return subst(out, {s: vals[s] for s in need})
    # leaves early: the conditions for leaving
    leave = not_(kind_is(inside, CONT))
    if any(s in leave.fs for s in others):
        return None
    labels = {x for _, x in leaves(inside)} - {CONT}
    if len(labels) > 1:
        return None
    P = subst(leave, {i: ix})
    (lb,) = labels
    if out is None:
        e = exists(n, ix, P)
        if lb is L:
            return e if L is not BRK else TRUE
        return not_(e) if L is BRK else FALSE
    # out: value under leaving by L
    if lb is L and L is not BRK:
        if any(s in out.fs for s in others):
            vals = _closed_vars(syms, inits, nexts, i, n, ix, None)
            # values that do not change before the exit
            m = {}
            for s in others:
                if s in out.fs:
                    j = syms.index(s)
                    if nexts[j] is s:
                        m[s] = inits[j]
                    else:
                        return None
            out = subst(out, m)
        return first(n, ix, P, subst(out, {i: ix}))
    if L is BRK and lb is not BRK:
        # normal end, knowing that the exit was not taken: traversal without exit
        vals = _closed_vars(syms, inits, [constrain(x, kind_is(inside, CONT)) for x in nexts], i, n, ix, TRUE)
        if vals is None:
            return None
        need = [s for s in syms if s in out.fs]
        if any(s not in vals for s in need):
            return None
        return subst(out, {s: vals[s] for s in need})
    if L is BRK and lb is BRK:
        # left by break or at the end
        guard = kind_is(kind, CONT)
        e = exists(n, ix, P)
        at_break = None
        # out was merged over both ways of leaving; split it by the guard
        ga = None
        for a in atoms_of(kind):
            if i in a.fs and a.op == "ge0":
                c1, c0 = cof(kind, a, True), cof(kind, a, False)
                if c0 is BRK and c1 is inside:
                    ga = (a, True)
                elif c1 is BRK and c0 is inside:
                    ga = (a, False)
        if ga is None:
            return None
        o_in = under(assume(out, ga[0], ga[1]), subst(leave, {}))
        o_end = assume(out, ga[0], not ga[1])
        m = {}
        for s in others:
            j = syms.index(s)
            if s in o_in.fs:
                if constrain(nexts[j], kind_is(inside, CONT)) is s:
                    m[s] = inits[j]
                else:
                    return None
        o_in = subst(o_in, m)
        vals = _closed_vars(syms, inits, nexts, i, n, ix, TRUE)
        need = [s for s in syms if s in o_end.fs]
        if vals is None or any(s not in vals for s in need):
            return None
        return ite(e, first(n, ix, P, subst(o_in, {i: ix})), subst(o_end, {s: vals[s] for s in need}))
    return None


def _closed_vars(syms, inits, nexts, i, n, ix, _):
    """Values after n iterations, for variables with a known recurrence."""
    vals = {i: n}
    others = [s for s in syms if s is not i]
    for s in others:
        j = syms.index(s)
        nx, i0 = nexts[j], inits[j]
        v = _recurrence(s, i0, nx, i, n, others)
        if v is not None:
            vals[s] = v
    return vals


def _indep(t, others):
    return not any(s in t.fs for s in others)


def _recurrence(s, i0, nx, i, n, others):
    ix = fresh_ix()

    def at(t):
        return subst(t, {i: ix})

    if nx is s:
        return i0
    if s not in nx.fs and _indep(nx, others):
        # last value
        return ite(ge0(sub(n, ONE)), subst(nx, {i: sub(n, ONE)}), i0)
    # sequence: s + g(i)
    g = _appended(s, nx)
    if g is not None and _indep(g, others):
        return cat(i0, flat(n, ix, at(g)))
    # string: s + g(i)
    if nx.op == "strcat" and nx.args[0] is s:
        g = strcat(*nx.args[1:])
        if _indep(g, others):
            return strcat(i0, sjoin(EMPTY_STR, flat(n, ix, lst(at(g)))))
    # sum
    if ty(nx) in ("int", None):
        c, d = lin_parts(nx) if nx.op != "ite" else (None, None)
        if d is not None and d.get(s) == 1 and nx.op == "lin":
            g = sub(nx, s)
            if _indep(g, others) and (ty(i0) == "int"):
                return add(i0, sum_(n, ix, at(g)))
    if nx.op == "ite" and ty(i0) == "int":
        g = _sum_step(s, nx)
        if g is not None and _indep(g, others):
            return add(i0, sum_(n, ix, at(g)))
    # boolean: s or p(i) / s and p(i)
    if nx.op == "ite" or nx in (TRUE, FALSE):
        b = _bool_step(s, nx, others)
        if b is not None:
            k, p = b
            if k == "or":
                return ite(exists(n, ix, at(p)), TRUE, i0)
            return ite(exists(n, ix, at(not_(p))), FALSE, i0)
    # mapping: store(s, k(i), v(i))
    p = _stored(s, nx)
    if p is not None and _indep(p, others):
        return dictupd(i0, flat(n, ix, at(p)))
    # every value of a mapping replaced
    if nx.op == "store" and nx.args[0] is s and nx.args[1].op == "key" and nx.args[1].args[1] is i and nx.args[1].args[0] is i0 and n is length(i0):
        k = nx.args[1]
        v = subst(nx.args[2], {_raw("idx", s, k): idx(i0, k)})
        if _indep(v, others) and s not in v.fs:
            return dictof(flat(n, ix, at(lst(tup(k, v)))))
    # mapping to collections: store(s, k, s.get(k, empty) + x)
    p = _grouped(s, nx)
    if p is not None and _indep(p[1], others):
        return groupupd(i0, p[0], flat(n, ix, at(p[1])))
    # set
    p = _added(s, nx)
    if p is not None and _indep(p, others):
        x = flat(n, ix, at(p))
        return setupd(i0, x)
    # keeps its value from the iteration that last satisfied a condition
    return None


def _appended(s, nx):
    if nx is s:
        return lst()
    if nx.op == "cat" and nx.args[0] is s:
        return cat(*nx.args[1:])
    if nx.op == "ite":
        a, b = _appended(s, nx.args[1]), _appended(s, nx.args[2])
        if a is None or b is None or s in nx.args[0].fs:
            return None
        return ite(cond_atom(nx.args[0]), a, b)
    return None


def _stored(s, nx):
    if nx is s:
        return lst()
    if nx.op == "dictupd" and s not in nx.args[1].fs:
        a = _stored(s, nx.args[0])
        return None if a is None else cat(a, nx.args[1])
    if nx.op == "store":
        a = _stored(s, nx.args[0])
        if a is None or s in nx.args[1].fs or s in nx.args[2].fs:
            return None
        return cat(a, lst(tup(nx.args[1], nx.args[2])))
    if nx.op == "ite":
        a, b = _stored(s, nx.args[1]), _stored(s, nx.args[2])
        if a is None or b is None or s in nx.args[0].fs:
            return None
        return ite(cond_atom(nx.args[0]), a, b)
    return None


def _added(s, nx):
    if nx is s:
        return lst()
    if nx.op == "setupd" and s not in nx.args[1].fs:
        a = _added(s, nx.args[0])
        return None if a is None else cat(a, nx.args[1])
    if nx.op == "setadd":
        a = _added(s, nx.args[0])
        if a is None or s in nx.args[1].fs:
            return None
        return cat(a, lst(nx.args[1]))
    if nx.op == "ite":
        a, b = _added(s, nx.args[1]), _added(s, nx.args[2])
        if a is None or b is None or s in nx.args[0].fs:
            return None
        return ite(cond_atom(nx.args[0]), a, b)
    return None


def dictupd(d, pairs):
    if pairs.op == "list":
        for p in pairs.args:
            d = store(d, p.args[0], p.args[1])
        return d
    if d.op == "dictof":
        return dictof(cat(d.args[0], pairs))
    if d.op == "dictupd":
        return _raw("dictupd", d.args[0], cat(d.args[1], pairs))
    return _raw("dictupd", d, pairs)


def setupd(d, xs):
    if d.op == "setof":
        return setof(cat(d.args[0], xs))
    if xs.op == "list":
        for x in xs.args:
            d = setadd(d, x)
        return d
    return _raw("setupd", d, xs)


def groupupd(d, how, pairs):
    if d.op == "groupupd" and d.args[1] == how:
        return groupupd(d.args[0], how, cat(d.args[2], pairs))
    if pairs.op == "list" and not pairs.args:
        return d
    return _raw("groupupd", d, how, pairs)


def _grouped(s, nx):
    """(how, pairs) when nx adds x to the collection of s under k."""
    if nx.op == "groupupd" and s not in nx.args[2].fs:
        if nx.args[0] is s:
            return nx.args[1], nx.args[2]
        a = _grouped(s, nx.args[0])
        return None if a is None or a[0] != nx.args[1] else (a[0], cat(a[1], nx.args[2]))
    if nx.op == "store":
        base, k, v = nx.args
        if base is not s or s in k.fs:
            return None
        old = ite(in_(k, s), idx(s, k), None_marker)
        if v.op == "setadd" and s not in v.args[1].fs:
            how, old_, x = "set", v.args[0], lst(v.args[1])
            empty = setof(lst())
        elif v.op == "setupd" and s not in v.args[1].fs:
            how, old_, x = "set", v.args[0], v.args[1]
            empty = setof(lst())
        elif v.op == "ite" and s in v.fs:
            # ite(k in s, cat(s[k], x), x)
            c = in_(k, s)
            t1, t0 = constrain(v, c), constrain(v, not_(c))
            for how, empty in (("list", lst()), ("set", setof(lst()))):
                x = _appended(idx(s, k), t1) if how == "list" else _added(idx(s, k), t1)
                if x is not None and s not in x.fs:
                    z = x if how == "list" else setof(x)
                    if t0 is z:
                        return how, lst(tup(k, x))
            return None
        else:
            x = _appended_any(v)
            if x is None:
                return None
            how, old_, x = "list", x[0], x[1]
            empty = lst()
        if s in x.fs:
            return None
        if old_ is ite(in_(k, s), idx(s, k), empty):
            return how, lst(tup(k, x))
        return None
    if nx.op == "ite" and s not in nx.args[0].fs:
        if nx.args[1] is s:
            b = _grouped(s, nx.args[2])
            return None if b is None else (b[0], ite(cond_atom(nx.args[0]), lst(), b[1]))
        if nx.args[2] is s:
            b = _grouped(s, nx.args[1])
            return None if b is None else (b[0], ite(cond_atom(nx.args[0]), b[1], lst()))
        a, b = _grouped(s, nx.args[1]), _grouped(s, nx.args[2])
        if a is None or b is None or a[0] != b[0]:
            return None
        return a[0], ite(cond_atom(nx.args[0]), a[1], b[1])
    return None


None_marker = _raw("nothing")


def _appended_any(v):
    if v.op == "cat" and len(v.args) >= 2:
        return v.args[0], cat(*v.args[1:])
    return None


def _sum_step(s, nx):
    if nx.op == "ite":
        a, b = _sum_step(s, nx.args[1]), _sum_step(s, nx.args[2])
        if a is None or b is None or s in nx.args[0].fs:
            return None
        return ite(cond_atom(nx.args[0]), a, b)
    g = sub(nx, s)
    return g if s not in g.fs else None


def _bool_step(s, nx, others):
    a = _raw("truthy", s)
    # as a diagram over truthy(s) or over s itself as a leaf
    t1 = _bool_sub(nx, s, TRUE)
    t0 = _bool_sub(nx, s, FALSE)
    if t1 is None or t0 is None:
        return None
    if not (_indep(t1, others) and _indep(t0, others)):
        return None
    if t1 is TRUE:
        return "or", t0
    if t0 is FALSE:
        return "and", t1
    return None


def _bool_sub(t, s, v):
    r = subst(t, {s: v})
    ok = all(x in (TRUE, FALSE) for _, x in leaves(r))
    return r if ok else None


# ------------------------------------------------------------ rebuilding


def mk(op, *a):
    """Rebuild a term of this operator through its normalising constructor."""
    f = _MK.get(op)
    if f is not None:
        return f(*a)
    return _raw(op, *a)


def _mk_lin(*a):
    r = const(a[0])
    for t, c in zip(a[1::2], a[2::2]):
        r = add(r, mul(t, const(c)))
    return r


EXPAND = [False]  # whether functions of known lists are written out


def _mk_call(*a):
    if EXPAND[0] and len(a) == 2 and type(a[1]) is T and a[1].op == "list" and len(a[1].args) <= 4:
        es = a[1].args
        if a[0] == "dict.fromkeys":
            return distinct(es, lambda *got: dictof(lst(*[tup(k, NONE) for k in got])))
        if a[0] in ("max", "min") and es and all(ty(k) == "int" for k in es):
            r = es[0]
            for k in es[1:]:
                r = ite(ge0(sub(r, k) if a[0] == "max" else sub(k, r)), r, k)
            return r
    return call(*a)


def call(name, *args):
    if name == "dict.fromkeys" and len(args) == 1 and args[0] is lst():
        return dictof(lst())
    if sum(1 for x in args if type(x) is T and x.op == "ite") <= 2:
        return lift(lambda *b: _raw("call", name, *b), *args)
    return _raw("call", name, *args)


def method(name, *args):
    if type(args[0]) is T and args[0].op == "ite":
        return lift(lambda o: method(name, o, *args[1:]), args[0])
    return _raw("m", name, *args)


_MK = {
    "lin": _mk_lin,
    "ge0": ge0,
    "lt": lt,
    "eq": eq,
    "isnone": isnone,
    "truthy": truthy,
    "in": in_,
    "is": is_,
    "len": length,
    "key": key,
    "keys": keys,
    "idx": idx,
    "slice": slice_,
    "attr": attr,
    "ostore": ostore,
    "dictof": dictof,
    "store": store,
    "del": del_,
    "setof": setof,
    "setadd": setadd,
    "dictupd": dictupd,
    "setupd": setupd,
    "groupupd": groupupd,
    "cat": cat,
    "strcat": strcat,
    "fmtv": fmtv,
    "sjoin": sjoin,
    "astuple": astuple,
    "sorted": mk_sorted,
    "mul": lambda *a: mul(*a) if len(a) == 2 else _raw("mul", *a),
    "arith": lambda op, a, b: add(a, b) if op == "+" else sub(a, b) if op == "-" else mul(a, b) if op == "*" else arith(op, a, b),
    "call": _mk_call,
    "m": method,
    "typeof": typeof,
    "iterset": seq_of,
    "iterof": seq_of,
    "ite": lambda a, x, y: ite(a if a.op in ("ite", "c") else cond_atom(a) if a.op in ATOMS else truthy(a), x, y),
}


# ---------------------------------------------------------------- display


def show(t, depth=0, lim=14):
    if type(t) is not T:
        return repr(t)
    if depth > lim:
        return "..."
    op, a = t.op, t.args

    def s(x):
        return show(x, depth + 1, lim)

    if op == "c":
        return repr(a[1])
    if op in ("sym", "glob", "root"):
        return str(a[0])
    if op == "ite":
        c, x, y = a
        if x is TRUE and y is FALSE:
            return s(c)
        if x is FALSE and y is TRUE:
            return "not " + s(c)
        if y is FALSE:
            return "(%s and %s)" % (s(c), s(x))
        if x is TRUE:
            return "(%s or %s)" % (s(c), s(y))
        return "(%s if %s else %s)" % (s(x), s(c), s(y))
    if op == "attr":
        return "%s.%s" % (s(a[0]), a[1])
    if op == "idx":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if op == "lin":
        out = []
        for k, v in zip(a[1::2], a[2::2]):
            out.append(("%s" if v == 1 else "-%s" if v == -1 else "%d*%%s" % v) % s(k))
        if a[0]:
            out.append(str(a[0]))
        return "(" + " + ".join(out).replace("+ -", "- ") + ")"
    if op == "len":
        return "len(%s)" % s(a[0])
    if op == "list":
        return "[%s]" % ", ".join(map(s, a))
    if op == "tuple":
        return "(%s,)" % ", ".join(map(s, a))
    if op == "cat":
        return " ++ ".join(map(s, a))
    if op == "ge0":
        return "%s >= 0" % s(a[0])
    if op == "eq":
        return "%s == %s" % (s(a[0]), s(a[1]))
    if op == "lt":
        return "%s < %s" % (s(a[0]), s(a[1]))
    if op == "in":
        return "%s in %s" % (s(a[0]), s(a[1]))
    if op == "truthy":
        return "bool(%s)" % s(a[0])
    if op == "isnone":
        return "%s is None" % s(a[0])
    if op in ("bv", "ix", "ls"):
        return op[0] + str(a[0])
    if op == "lv":
        return "v%d_%d" % a[:2]
    if op == "lbl":
        return "<%s>" % a[0]
    if op == "call":
        return "%s(%s)" % (a[0], ", ".join(map(s, a[1:])))
    if op == "m":
        return "%s.%s(%s)" % (s(a[1]), a[0], ", ".join(map(s, a[2:])))
    if op in ("exists", "flat", "sum"):
        return "%s{i%d<%s: %s}" % (op, a[0], s(a[1]), s(a[2]))
    if op == "first":
        return "first{i%d<%s: %s -> %s}" % (a[0], s(a[1]), s(a[2]), s(a[3]))
    if op == "lam":
        return "lam{i%d: %s}" % (a[0], s(a[2]))
    if op in ("loopout", "loopexit"):
        n = a[2]
        return "%s@%s{init %s; kind %s; next %s%s}" % (
            op, a[3], ", ".join(map(s, a[4:4 + n])), s(a[4 + n]), ", ".join(map(s, a[5 + n:5 + 2 * n])),
            "; out " + s(a[5 + 2 * n]) if op == "loopout" else "")
    if op == "obj":
        return "%s{%s}" % (a[0], ", ".join("%s=%s" % (n, s(v)) for n, v in zip(a[1], a[2:])))
    return "%s(%s)" % (op, ", ".join(s(x) if type(x) is T else repr(x) for x in a))
