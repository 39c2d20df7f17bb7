"""Abstract evaluation of function bodies to value terms.

Every function is evaluated once, on symbolic parameters, with states joined
at every merge of control flow (no enumeration of paths) and loops summarised
by the recurrences of their state.  The result is a value graph: return value,
conditions of raising, and the final contents of every object.
"""
import ast
import builtins

from .terms import *
from .terms import _raw
from . import terms as TM
from .program import Program, Cls, Mod


class Stuck(Exception):
    """Something the evaluator does not model."""


class State:
    __slots__ = ("frames", "heap", "alive")

    def __init__(self):
        self.frames, self.heap, self.alive = {}, {}, TRUE

    def copy(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.alive = self.alive
        return s

    def take(self, o):
        self.frames, self.heap, self.alive = o.frames, o.heap, o.alive


class Exit:
    __slots__ = ("kind", "guard", "value", "state", "node")

    def __init__(self, kind, guard, value, state, node=None):
        self.kind, self.guard, self.value, self.state, self.node = kind, guard, value, state, node


class Fn:
    def __init__(self, node, mod, cls, frame, name):
        self.node, self.mod, self.cls, self.frame, self.name = node, mod, cls, frame, name


UNDEF = opaque("undefined")
IMM = {"int", "str", "bool", "float", "none"}
LOSSY = {"round", "lower", "upper", "casefold", "title", "capitalize", "swapcase", "math.floor", "math.ceil", "math.trunc", "abs", "unicodedata.normalize"}
TRACE = root("<trace>")
LOGM = {"debug", "info", "warning", "warn", "error", "critical", "exception", "log"}

BUILTIN_PURE = {
    "len", "range", "sorted", "min", "max", "sum", "any", "all", "enumerate", "zip", "reversed", "list", "dict",
    "set", "tuple", "frozenset", "str", "int", "float", "bool", "isinstance", "type", "getattr", "hasattr", "abs",
    "round", "map", "filter", "iter", "next", "repr", "id", "hash", "open", "print", "super", "callable", "vars",
    "globals", "setattr", "ord", "chr", "issubclass", "object", "property", "staticmethod", "classmethod", "eval",
    "exec", "compile", "__import__", "format", "divmod", "pow", "bytes", "slice", "input", "locals", "dir",
}
for _n, _t in {
    "int": "int", "str": "str", "float": "float", "bool": "bool", "round": "int", "repr": "str",
    "isinstance": "bool", "hasattr": "bool", "callable": "bool", "re.escape": "str", "math.log2": "float",
    "math.log": "float", "math.sqrt": "float", "unicodedata.lookup": "str", "json.dumps": "str", "yaml.dump": "str", "ord": "int", "chr": "str",
    "re.compile": ("inst", "re.Pattern"), "os.path.join": "str", "os.path.dirname": "str",
    ".match": ("opt", ("inst", "re.Match")), ".fullmatch": ("opt", ("inst", "re.Match")),
    ".search": ("opt", ("inst", "re.Match")), ".end": "int", ".start": "int", ".split": ("list", "str"),
    ".findall": ("list", "str"), ".strip": "str", ".lower": "str", ".upper": "str", ".join": "str",
    ".startswith": "bool", ".endswith": "bool", ".replace": "str", ".sub": "str", ".read": "str", ".format": "str",
    ".rstrip": "str", ".lstrip": "str", ".isdigit": "bool", ".issubset": "bool", ".isdisjoint": "bool",
    "len": "int", "logging.getLogger": ("inst", "logging.Logger"), ".splitlines": ("list", "str"),
    "inspect.getmembers": ("list", None), ".count": "int", ".index": "int", ".find": "int",
}.items():
    CALL_TYPES[_n] = _t


PUREM = {"get", "items", "keys", "values", "copy", "index", "count", "find", "startswith", "endswith", "strip", "lstrip", "rstrip", "split", "rsplit", "splitlines", "join", "format", "lower", "upper",
         "title", "replace", "encode", "decode", "isdigit", "isalpha", "isspace", "group", "groups", "groupdict", "start", "end", "span", "match", "search", "fullmatch", "findall", "finditer", "sub",
         "union", "intersection", "difference", "issubset", "issuperset", "isdisjoint", "read", "readlines", "dump", "dumps", "load", "loads", "validate", "exists"}


class Evaluator:
    MAXDEPTH = 30

    def __init__(self, prog, hints=None):
        self.writes = {}  # (object, attribute) written -> node
        self.volatile = {}  # (object, attribute) -> type; written by other calls
        self.p = prog
        self.fns = {}
        self.fid = 0
        self.factories = {}
        self.locs = {}
        self.stack = []
        self.exits = []
        self.calls = []  # (dotted/external name, node, mod) of external calls met
        self.opaque_log = []
        self.implicit = []
        self.steps = 0
        self.inlined = set()
        self.pure_methods = set()
        self.lossy = {}  # where part of what is given is lost
        self.instead = {}  # functions taken to be others
        self.transparent = None  # the place taken to change nothing
        self.stub_writes = False  # whether stubs change attributes of their object
        self.stubs = {}  # function -> (name, type of result, exception raised, its self)
        self.nostub = None
        for q, c in prog.classes.items():
            f = prog.namedtuple_fields(c)
            if f:
                NAMEDTUPLES[q] = f
            CLASS_BASES[q] = [x.qual for x in prog.mro(c) if isinstance(x, Cls)]

    # ------------------------------------------------------ references

    def is_lv(self, v):
        while v.op in ("attr", "idx"):
            v = v.args[0]
        return v.op in ("root", "ref")

    def content(self, v, st):
        """Content of an lvalue (following one pointer)."""
        if v.op in ("root", "ref"):
            c = st.heap.get(v)
            if c is None:
                if v.op == "root":
                    c = sym(v.args[0])
                    if v in TYPES and c not in TYPES:
                        TYPES[c] = TYPES[v]
                else:
                    c = opaque("lost reference")
            return c
        if v.op == "attr":
            x = attr(self.content(v.args[0], st), v.args[1])
        elif v.op == "idx":
            x = idx(self.content(v.args[0], st), self.fz(v.args[1], st))
        else:
            return v
        return self.follow(x, st)

    def follow(self, x, st):
        if x.op == "ite" and x.lv:
            return lift(lambda y: self.follow(y, st), x)
        if self.is_lv(x):
            return self.content(x, st)
        return x

    def fz(self, v, st, only=None, seen=()):
        """Value of v with all references replaced by contents."""
        if not v.lv:
            return v
        memo = {}

        def go(t, seen):
            if not t.lv:
                return t
            r = memo.get(t)
            if r is not None:
                return r
            if t.op == "ite":
                r = ite(cond_atom(t.args[0]) if not t.args[0].lv else truthy(go(t.args[0], seen)), go(t.args[1], seen), go(t.args[2], seen))
            elif self.is_lv(t):
                if only is not None and t.op in ("root", "ref") and t not in only:
                    return t
                if t in seen:
                    return opaque("cyclic")
                r = go(self.content(t, st), seen + (t,))
            elif t.op in BINDERS:
                r = map_binder(t, lambda x: go(x, seen))
            elif t.op == "pyfn" or t.op == "bound":
                return t
            else:
                na = [go(a, seen) if type(a) is T else a for a in t.args]
                r = mk(t.op, *na)
            memo[t] = r
            return r

        return go(v, seen)

    def tyof(self, v, st):
        if v.lv:
            if self.is_lv(v):
                return ty(self.content(v, st))
            if v.op == "ite":
                return join_ty(self.tyof(v.args[1], st), self.tyof(v.args[2], st))
            return ty(v)
        return ty(v)

    def imm(self, v):
        """May be handled by value."""
        if v.op in ("c", "lin", "len", "pyfn", "cls", "glob", "bound", "strcat", "fmtv", "tuple", "lam", "sjoin", "builtin", "modref"):
            return True
        if v.op == "ite":
            return all(self.imm(x) or self.is_lv(x) for _, x in leaves(v))
        return ty(v) in IMM

    def alloc(self, content, st, kind=None):
        r = fresh("ref")
        st.heap[r] = content
        return r

    def rattr(self, o, name, st):
        """o.name for data attributes."""
        if o.op == "ite":
            a = cond_atom(o.args[0])
            return ite(a, self.rattr(o.args[1], name, st), self.rattr(o.args[2], name, st))
        if self.is_lv(o):
            v = attr(self.content(o, st), name)
            if (o, name) in self.volatile:
                return self.left(o, name, v, st)
            if v.lv and (self.is_lv(v) or v.op == "ite" and self.lvleaf(v)):
                return self.relv(v, _raw("attr", o, name))
            if self.imm(v):
                return v
            return attr(o, name)
        return attr(o, name)

    def left(self, o, name, v, st):
        """What another call may have left in an attribute."""
        t = self.volatile[(o, name)] or self.tyof(v, st)
        s = sym("left behind in " + name)
        r = root("left behind in " + name)
        TYPES[s] = TYPES[r] = t
        return s if t in IMM else r

    def relv(self, v, lv):
        """v, with parts that are values (not references) replaced by the place lv."""
        if v.op == "ite":
            return ite(cond_atom(v.args[0]), self.relv(v.args[1], lv), self.relv(v.args[2], lv))
        if self.is_lv(v) or v is NONE or v.op == "c":
            return v
        return lv

    def ritem(self, o, k, st):
        if o.op == "ite":
            a = cond_atom(o.args[0])
            return ite(a, self.ritem(o.args[1], k, st), self.ritem(o.args[2], k, st))
        k = self.fz(k, st)
        if self.is_lv(o):
            f = self.factories.get(o)
            if f is not None:
                c = in_(k, st.heap[o])
                if c is not TRUE:
                    st.heap[o] = ite(c, st.heap[o], store(st.heap[o], k, f))
            v = idx(self.content(o, st), k)
            if v.lv and (self.is_lv(v) or v.op == "ite" and self.lvleaf(v)):
                return self.relv(v, _raw("idx", o, k))
            if self.imm(v):
                return v
            return _raw("idx", o, k)
        return idx(o, k)

    def lvleaf(self, v):
        return any(self.is_lv(x) for _, x in leaves(v))

    def update(self, o, f, st, node=None, depth=0, what=None):
        """Replace the content of the object at o by f(content)."""
        if o.op == "ite":
            a = cond_atom(o.args[0])
            s1, s2 = st.copy(), st.copy()
            for x, s, val in ((o.args[1], s1, True), (o.args[2], s2, False)):
                b = x
                while b.op in ("attr", "idx"):
                    b = b.args[0]
                if b in s.heap:
                    s.heap[b] = assume(s.heap[b], o.args[0], val)
                self.update(x, f, s, node, depth + 1, what)
            self.join(st, a, s1, s2)
            return
        if o.op in ("root", "ref"):
            self.writes.setdefault((o, what), node)
            st.heap[o] = f(self.content(o, st))
            return
        if not self.is_lv(o):
            self.opaque_log.append(("mutation of an untracked value", node))
            return
        p = o.args[0]
        c = self.content(p, st)
        if o.op == "attr":
            v = attr(c, o.args[1])
        else:
            v = idx(c, o.args[1])
        if v.lv and (self.is_lv(v) or v.op == "ite" and self.lvleaf(v)):
            v2 = self.relv(v, o)
            if depth > 12:
                self.opaque_log.append(("mutation through an unresolved alternative", node))
                return
            self.update(v2, f, st, node, depth + 1, what)
            return
        nv = f(v)
        if nv is v:
            return
        if o.op == "attr":
            self.update(p, lambda c: ostore(c, o.args[1], nv), st, node, what=o.args[1])
        else:
            self.update(p, lambda c: store(c, o.args[1], nv), st, node, what="[]")

    def detach(self, slot, st, but=None):
        """Before a slot is rebound: references read from it keep their value."""
        for fr in st.frames.values():
            for k, v in fr.items():
                if v.lv and v is not but and _mentions(v, slot):
                    fr[k] = self.fz(v, st)
        for r, v in list(st.heap.items()):
            if v.lv and _mentions(v, slot):
                st.heap[r] = subst(v, {slot: self.fz(slot, st)})

    # ------------------------------------------------------------ joins

    def join(self, st, c, s1, s2):
        if s1.alive is FALSE:
            st.take(s2)
            return
        if s2.alive is FALSE:
            st.take(s1)
            return
        frames = {}
        for k in set(s1.frames) | set(s2.frames):
            f1, f2 = s1.frames.get(k), s2.frames.get(k)
            if f1 is None or f2 is None:
                frames[k] = dict(f1 or f2)
                continue
            d = {}
            for n in list(f1) + [x for x in f2 if x not in f1]:
                a, b = f1.get(n, UNDEF), f2.get(n, UNDEF)
                if a is b:
                    d[n] = a
                elif a is UNDEF:
                    d[n] = b
                elif b is UNDEF:
                    d[n] = a
                else:
                    d[n] = self.jval(c, a, b, s1, s2)
            frames[k] = d
        heap = {}
        for r in set(s1.heap) | set(s2.heap):
            a, b = s1.heap.get(r), s2.heap.get(r)
            if a is None and r.op == "ref":
                heap[r] = b
            elif b is None and r.op == "ref":
                heap[r] = a
            else:
                if a is None:
                    a = self.content(r, s1)
                if b is None:
                    b = self.content(r, s2)
                heap[r] = a if a is b else ite(c, a, b)
        alive = or_(s1.alive, s2.alive)
        st.frames, st.heap, st.alive = frames, heap, alive

    def jval(self, c, a, b, s1, s2):
        return ite(c, a, b)

    # ------------------------------------------------------- statements

    def block(self, body, st):
        for s in body:
            if st.alive is FALSE:
                return
            self.stmt(s, st)

    def stmt(self, s, st):
        self.steps += 1
        if self.steps > 400000:
            raise Stuck("too large")
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.opaque_log.append(("statement " + type(s).__name__, s))
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    self.setvar(n.id, opaque("unsupported statement", type(s).__name__), st)
            return
        m(s, st)

    @property
    def fr(self):
        return self.stack[-1]

    def s_Expr(self, s, st):
        self.ev(s.value, st)

    def s_Pass(self, s, st):
        pass

    def s_Import(self, s, st):
        for a in s.names:
            n = a.asname or a.name.split(".")[0]
            full = a.name if a.asname else a.name.split(".")[0]
            self.setvar(n, self.modval(full), st)

    def modval(self, full):
        return _raw("modref", full) if full in self.p.mods else glob(full)

    def s_ImportFrom(self, s, st):
        mod = self.fr.mod
        tmp = Mod.__new__(Mod)
        tmp.name, tmp.path, tmp.defs, tmp.assigns = mod.name, mod.path, {}, {}
        tmp.collect([s])
        for n, d in tmp.defs.items():
            self.setvar(n, self.binding(d[1], d[2], st), st)

    def binding(self, modname, name, st):
        if modname in self.p.mods:
            v = self.modname(modname, name, st)
            if v is not None:
                return v
            if modname + "." + name in self.p.mods:
                return _raw("modref", modname + "." + name)
            return glob(modname + "." + name)
        return glob(modname + "." + name)

    def s_FunctionDef(self, s, st):
        f = self.mkfn(s, self.fr.mod, None, self.fr.id, s.name)
        self.setvar(s.name, self.decorated(s, f, st), st)

    def decorated(self, s, f, st):
        for d in s.decorator_list:
            r = self.p.resolve_expr(self.fr.mod.name if self.stack else f.mod.name, d.func if isinstance(d, ast.Call) else d)
            n = r[1] if r and r[0] == "ext" else ""
            if n in ("functools.wraps", "staticmethod", "classmethod", "property"):
                continue
            self.opaque_log.append(("decorator " + (n or "?"), s))
        return f

    def s_ClassDef(self, s, st):
        self.setvar(s.name, opaque("local class"), st)

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        self.exits.append(Exit("ret", st.alive, v, st.copy(), s))
        st.alive = FALSE

    def s_Raise(self, s, st):
        if s.exc is None:
            v = self.cur_exc() or opaque("re-raise")
        else:
            v = self.fz(self.ev(s.exc, st), st)
        if st.alive is FALSE:
            return
        self.exits.append(Exit("raise", st.alive, exc_of(v), st.copy(), s))
        st.alive = FALSE

    def cur_exc(self):
        return getattr(self, "_exc", None)

    def s_Assert(self, s, st):
        c = self.cond(s.test, st)
        g = and_(st.alive, not_(c))
        if g is not FALSE:
            self.exits.append(Exit("raise", g, _raw("exc", "assert"), st.copy(), s))
            st.alive = and_(st.alive, c)

    def s_Global(self, s, st):
        for n in s.names:
            self.fr.globals.add(n)

    def s_Nonlocal(self, s, st):
        for n in s.names:
            self.fr.nonlocals.add(n)

    def s_Break(self, s, st):
        self.exits.append(Exit("break", st.alive, NONE, st.copy(), s))
        st.alive = FALSE

    def s_Continue(self, s, st):
        self.exits.append(Exit("continue", st.alive, NONE, st.copy(), s))
        st.alive = FALSE

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st)

    def s_AugAssign(self, s, st):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), st)
        elif isinstance(t, ast.Attribute):
            cur = self.getattr_(self.ev(t.value, st), t.attr, st, t)
        else:
            o = self.ev(t.value, st)
            k = self.ev_slice(t.slice, st)
            cur = self.ritem(o, k, st)
        v = self.ev(s.value, st)
        ct = self.tyof(cur, st)
        if isinstance(s.op, ast.Add) and cur.lv and (ct and ct[0] == "list"):
            x = seq_of(self.fz(self.toseq(v, st), st)) if False else self.toseq(v, st)
            self.update(cur, lambda c: cat(c, x), st, s)
            return
        if isinstance(s.op, ast.BitOr) and cur.lv and ct and ct[0] in ("set", "dict"):
            x = self.fz(v, st)
            if ct[0] == "set":
                self.update(cur, lambda c: setupd(c, seq_of(x)), st, s)
            else:
                self.update(cur, lambda c: dictupd(c, self.pairs(x)), st, s)
            return
        r = self.binop(s.op, cur, v, st, s)
        self.assign(t, r, st)

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.ev(t.value, st)
                if isinstance(t.slice, ast.Slice):
                    lo = self.fz(self.ev(t.slice.lower, st), st) if t.slice.lower else NONE
                    hi = self.fz(self.ev(t.slice.upper, st), st) if t.slice.upper else NONE
                    if hi is NONE:
                        self.update(o, lambda c: slice_(c, NONE, lo), st, s)
                    elif lo is NONE:
                        self.update(o, lambda c: slice_(c, hi, NONE), st, s)
                    else:
                        self.update(o, lambda c: _raw("delslice", c, lo, hi), st, s)
                    continue
                k = self.fz(self.ev(t.slice, st), st)
                x = self.tyof(o, st)
                if x and x[0] == "list":
                    self.update(o, lambda c: self.dellist(c, k), st, s)
                else:
                    self.update(o, lambda c: del_(c, k), st, s)
            elif isinstance(t, ast.Name):
                self.cur_frame(st).pop(t.id, None)
            else:
                o = self.ev(t.value, st)
                self.update(o, lambda c: _raw("delattr", c, t.attr), st, s)

    def dellist(self, c, k):
        if is_const(k) and cval(k) == -1:
            return slice_(c, ZERO, const(-1))
        if k is ZERO:
            return slice_(c, ONE, NONE)
        return _raw("del", c, k)

    def cur_frame(self, st):
        return st.frames[self.fr.id]

    def setvar(self, n, v, st):
        if not self.stack:
            return
        f = self.fr
        if n in f.globals:
            self.setattr_(root(f.mod.name + ".<globals>"), n, v, st, None)
            return
        if n in f.nonlocals:
            fid = f.closure
            while fid is not None:
                if n in st.frames.get(fid, {}):
                    st.frames[fid][n] = v
                    return
                fid = self.frame_parent.get(fid)
        st.frames[f.id][n] = v

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            self.note(v, t)
            self.setvar(t.id, v, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                j = star[0]
                for i, e in enumerate(t.elts):
                    if i < j:
                        self.assign(e, self.ritem(v, const(i), st), st)
                    elif i == j:
                        hi = NONE if j == n - 1 else const(j - n + 1)
                        self.assign(e.value, self.alloc(aslist(slice_(self.fz(v, st), const(j), hi)), st), st)
                    else:
                        self.assign(e, self.ritem(v, const(i - n), st), st)
                return
            vs = [self.ritem(v, const(i), st) for i in range(n)]
            for e, x in zip(t.elts, vs):
                self.assign(e, x, st)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            self.setattr_(o, t.attr, v, st, t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            if isinstance(t.slice, ast.Slice):
                if t.slice.lower is None and t.slice.upper is None:
                    x = self.fz(self.toseq(v, st), st)
                    self.update(o, lambda c: x, st, t)
                else:
                    self.update(o, lambda c: opaque("slice assignment"), st, t)
                return
            k = self.fz(self.ev(t.slice, st), st)
            self.setitem(o, k, v, st, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)
        else:
            raise Stuck("assignment target")

    def setitem(self, o, k, v, st, node):
        u = self.user(o, st) if o.op != "ite" else None
        if u is not None:
            if self.dunder(o, u[0], "__setitem__", [k, v], st, node) is not None:
                return
            if u[1]:
                o = self.rattr(o, "data", st)
        if not v.lv:
            pass
        elif self.imm(v) and not self.is_lv(v) and v.op != "tuple" and v.op != "ite":
            v = self.fz(v, st)
        if o.op != "ite" and self.is_lv(o):
            v = self.rebind(_raw("idx", o, k), v, idx(self.content(o, st), k), st)
        self.note(v, node)
        self.update(o, lambda c: store(c, k, v), st, node)

    def rebind(self, slot, v, cur, st):
        """Prepare for storing v at slot, which now holds cur."""
        own = v.lv and any(x is slot for _, x in leaves(v))
        self.detach(slot, st, v if own else None)
        if own:
            def go(x):
                if x.op == "ite":
                    return ite(cond_atom(x.args[0]), go(x.args[1]), go(x.args[2]))
                return cur if x is slot else x
            v = go(v)
        return v

    def setattr_(self, o, name, v, st, node):
        if o.op == "ite":
            s1, s2 = st.copy(), st.copy()
            self.setattr_(o.args[1], name, v, s1, node)
            self.setattr_(o.args[2], name, v, s2, node)
            self.join(st, cond_atom(o.args[0]), s1, s2)
            return
        c = self.class_of(o, st)
        if c is not None:
            m = self.p.find_member(c, name + ".setter")
            if m:
                self.call_def(m[1], m[0].mod, m[0], [o, v], {}, st, None, node)
                return
        if o.op == "cls":
            o = root(o.args[0])
        if o.op == "modref":
            o = root(o.args[0] + "." + name)
            st.heap[o] = self.fz(v, st)
            return
        if self.is_lv(o):
            v = self.rebind(_raw("attr", o, name), v, attr(self.content(o, st), name), st)
        self.note(v, node)
        self.update(o, lambda c: ostore(c, name, v), st, node, what=name)

    def s_If(self, s, st):
        t = s.test
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.NotIn) and len(s.body) == 1 and not s.orelse and isinstance(s.body[0], ast.Expr):
            v = s.body[0].value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "append" and len(v.args) == 1 and ast.dump(v.func.value).replace("Load", "") == ast.dump(t.comparators[0]).replace("Load", "") and ast.dump(v.args[0]) == ast.dump(t.left):
                if self.lose("what is there already left out", s):
                    return self.block(s.body, st)
        c = self.cond(s.test, st)
        if st.alive is FALSE:
            return
        self.branch(c, st, lambda x: self.block(s.body, x), lambda x: self.block(s.orelse, x))

    def branch(self, c, st, f1, f2):
        """Run f1 where c holds and f2 elsewhere."""
        if c is TRUE:
            return f1(st)
        if c is FALSE:
            return f2(st)
        k1, k2 = constrain(c, st.alive), None
        if k1 is TRUE:
            return f1(st)
        if k1 is FALSE:
            return f2(st)
        s1, s2 = st.copy(), st
        s2 = st.copy()
        s1.alive = and_(st.alive, c)
        s2.alive = and_(st.alive, not_(c))
        r1 = f1(s1)
        r2 = f2(s2)
        d1, d2 = s1.alive is FALSE, s2.alive is FALSE
        self.join(st, c, s1, s2)
        if d1 and d2:
            st.alive = FALSE
        if r1 is None and r2 is None:
            return None
        if d1:
            return r2
        if d2:
            return r1
        return ite(c, r1 if type(r1) is T else NONE, r2 if type(r2) is T else NONE)

    def s_With(self, s, st):
        for i in s.items:
            v = self.ev(i.context_expr, st)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, st)
        self.block(s.body, st)

    def s_Try(self, s, st):
        names = []
        for h in s.handlers:
            if h.type is None:
                names.append("BaseException")
            else:
                ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                for t in ts:
                    r = self.p.resolve_expr(self.fr.mod.name, t)
                    names.append(r[1].name if r and r[0] == "cls" else (r[1].split(".")[-1] if r else "?"))
        outer = self.exits
        self.exits = []
        self.implicit.append(set(names))
        before = len(self.opaque_log)
        ncalls = len(self.calls)
        st0 = st.copy()
        alive0 = st.alive
        self.block(s.body, st)
        self.implicit.pop()
        mine = self.exits
        self.exits = outer
        if s.orelse and st.alive is not FALSE:
            self.block(s.orelse, st)
        raised = [e for e in mine if e.kind == "raise"]
        for e in mine:
            if e.kind != "raise":
                self.exits.append(e)
        # what external code in the body may raise is unknown
        unknown = len(self.calls) > ncalls and any(
            n not in ("KeyError", "IndexError", "LookupError", "StopIteration") for n in names)
        for h in s.handlers:
            if h.type is None:
                hn = ["BaseException"]
            else:
                ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                hn = []
                for t in ts:
                    r = self.p.resolve_expr(self.fr.mod.name, t)
                    hn.append(r[1] if r and r[0] == "cls" else (r[1].split(".")[-1] if r else "?"))
            # external code never raises the repository's own exceptions
            foreign = unknown and not all(isinstance(x, Cls) for x in hn)
            caught = [e for e in raised if any(self.exc_matches(e.value, x) for x in hn)]
            raised = [e for e in raised if e not in caught]
            if foreign and not any(isinstance(n, ast.Raise) for b in h.body for n in ast.walk(b)) and set(hn) & {"AssertionError", "Exception", "BaseException"} and self.lose("errors caught", h):
                continue
            if foreign:
                u = and_(alive0, truthy(opaque("may raise", h.lineno)))
                e = Exit("raise", u, _raw("exc", "unknown"), st0.copy(), h)
                caught.append(e)
                self.opaque_log.append(("exception handler", h))
            for e in caught:
                x = e.state
                x.alive = e.guard
                if h.name:
                    x.frames[self.fr.id][h.name] = e.value
                old = self.cur_exc()
                self._exc = e.value
                self.block(h.body, x)
                self._exc = old
                # rejoin
                if x.alive is not FALSE:
                    if st.alive is FALSE:
                        st.take(x)
                    else:
                        a = st.alive
                        self.join(st, e.guard, x, st.copy())
                        st.alive = or_(a, x.alive)
        self.exits += raised
        if s.finalbody:
            if st.alive is not FALSE:
                self.block(s.finalbody, st)

    s_TryStar = s_Try

    def exc_matches(self, v, h):
        if v.op != "exc":
            return False
        n = v.args[0]
        if n == "assert":
            n = "AssertionError"
        if isinstance(h, Cls):
            c = self.p.classes.get(n)
            return c is not None and any(x is h for x in self.p.mro(c))
        if h in ("BaseException", "Exception"):
            return True
        c = self.p.classes.get(n)
        if c is not None:
            return any(isinstance(x, str) and x.split(".")[-1] == h for x in self.p.mro(c))
        a, b = getattr(builtins, n.split(".")[-1], None), getattr(builtins, h, None)
        if isinstance(a, type) and isinstance(b, type):
            return issubclass(a, b)
        return n.split(".")[-1] == h

    # ------------------------------------------------------------ loops

    def s_While(self, s, st):
        self.loop(st, lambda x: self.cond(s.test, x), lambda x: self.block(s.body, x), s, s.orelse)

    def s_For(self, s, st):
        it = self.ev(s.iter, st)
        self.for_(it, lambda v, x: (self.assign(s.target, v, x), self.block(s.body, x)), st, s, s.orelse)

    # ------------------------------------- containers that are classes

    def user(self, o, st):
        """(class, "UserList" | "UserDict" | None) of an instance of the
        repository's own container classes, else None."""
        if o.op == "itr" or o.op == "ite":
            return None
        c = self.class_of(o, st)
        if c is None or ("inst", c.qual)[1] in NAMEDTUPLES:
            return None
        for b in self.p.ext_bases(c):
            b = str(b).split(".")[-1] if isinstance(b, str) else ""
            if b in ("UserList", "UserDict"):
                return c, b
        if any(n in c.members for n in ("__getitem__", "__iter__", "__len__", "__contains__")):
            return c, None
        return None

    def dunder(self, o, c, name, args, st, node):
        m = self.p.find_member(c, name)
        if m is None or not isinstance(m[1], ast.FunctionDef):
            return None
        return self.call_def(m[1], m[0].mod, m[0], [o] + args, {}, st, None, node)

    def std(self, fn, args, st, node):
        m = self.p.mods["spec_std"]
        return self.call_def(m.defs[fn], m, None, args, {}, st, None, node)

    def iterable(self, o, st, node=None):
        """o, or what is iterated instead."""
        if o.op == "itr" and o.args[0] in ("enumerate", "zip", "reversed", "map", "filter", "items", "values"):
            na = [self.iterable(x, st, node) if type(x) is T and x.op not in ("c", "pyfn", "lam") else x for x in o.args[1:]]
            if all(x is y for x, y in zip(na, o.args[1:])):
                return o
            return _raw("itr", o.args[0], *na)
        u = self.user(o, st)
        if u is None:
            return o
        c, base = u
        r = self.dunder(o, c, "__iter__", [], st, node)
        if r is not None:
            return self.iterable(r, st, node)
        if base == "UserList":
            if self.p.find_member(c, "__getitem__"):
                return self.std("list_iter", [o], st, node)
            return self.rattr(o, "data", st)
        if base == "UserDict":
            return self.rattr(o, "data", st)
        return o

    def source(self, it, st):
        """('lit', [values]) or ('seq', n, elem(i, st)) with elem giving a diagram of ('skip' | value)."""
        if it.op == "ite" and not self.is_lv(it):
            ls = [x for _, x in leaves(it)]
        if it.op == "itr":
            kind = it.args[0]
            if kind == "enumerate":
                s = self.source(it.args[1], st)
                start = it.args[2]
                if s[0] == "lit":
                    return "lit", [tup(add(start, const(i)), x) for i, x in enumerate(s[1])]
                if len(s) > 3:
                    q = self.toseq(it.args[1], st)
                    return "seq", length(q), lambda i, x: tup(add(start, i), idx(q, i))
                return "seq", s[1], lambda i, x: tup(add(start, i), s[2](i, x))
            if kind == "zip":
                ss = [self.source(y, st) for y in it.args[1:]]
                if all(x[0] == "lit" for x in ss):
                    return "lit", [tup(*xs) for xs in zip(*[x[1] for x in ss])]
                ns = [const(len(x[1])) if x[0] == "lit" else x[1] for x in ss]
                n = ns[0]
                for m in ns[1:]:
                    n = ite(ge0(sub(n, m)), m, n) if n is not m else n
                fs = [(lambda i, y, q=lst(*x[1]): idx(q, i)) if x[0] == "lit" else x[2] for x in ss]
                return "seq", n, lambda i, x: tup(*[f(i, x) for f in fs])
            if kind == "reversed":
                s = self.source(it.args[1], st)
                if s[0] == "lit":
                    return "lit", s[1][::-1]
                if len(s) > 3:
                    q = self.toseq(it.args[1], st)
                    return "seq", length(q), lambda i, x: idx(q, sub(sub(length(q), ONE), i))
                return "seq", s[1], lambda i, x: s[2](sub(sub(s[1], ONE), i), x)
            if kind in ("items", "values"):
                d = it.args[1]
                c = self.fz(d, st)
                if c.op == "dictof" and c.args[0].op == "list":
                    out = []
                    for p in c.args[0].args:
                        v = self.ritem(d, p.args[0], st)
                        out.append(tup(p.args[0], v) if kind == "items" else v)
                    return "lit", out
                n = length(c)
                kq = keys(c)
                if kq.op == "flat":
                    n = length(kq)

                def el(i, x, d=d, kq=kq):
                    k = idx(kq, i)
                    v = self.ritem(d, k, x)
                    return tup(k, v) if kind == "items" else v

                return "seq", n, el
            if kind == "map":
                s = self.source(it.args[2], st)
                if s[0] == "lit":
                    return "lit", [self.apply(it.args[1], [x], {}, st, None) for x in s[1]]
                if len(s) == 3:
                    return "seq", s[1], lambda i, x: self.apply(it.args[1], [s[2](i, x)], {}, x, None)
            if kind == "filter":
                q = self.toseq(it, st)
                return self.source(q, st)
            raise Stuck("iterator " + kind)
        c = self.fz(it, st)
        if c.op == "c" and type(cval(c)) is str and len(cval(c)) <= 12:
            return "lit", [const(x) for x in cval(c)]
        x = ty(c)
        if x and x[0] == "opt":
            x = x[1]
        if c.op in ("list", "tuple") and len(c.args) <= 12:
            if self.is_lv(it):
                return "lit", [self.ritem(it, const(i), st) for i in range(len(c.args))]
            if it.op == c.op:
                return "lit", list(it.args)
            return "lit", list(c.args)
        if c.op == "dictof" and c.args[0].op == "list":
            return "lit", [p.args[0] for p in c.args[0].args]
        if c.op == "flat":
            b = fresh_ix()
            body = open1(c, b)
            ls = [y for _, y in leaves(body)]
            if all(y.op == "list" and len(y.args) == 1 for y in ls):
                if self.is_lv(it):
                    return "seq", c.args[1], lambda i, y: self.ritem(it, i, y)
                return "seq", c.args[1], lambda i, y: idx(c, i)
            if all(y.op == "list" and len(y.args) <= 1 for y in ls):
                def el(i, y):
                    bo = open1(c, i)
                    return lift(lambda z: z.args[0] if z.args else SKIP, bo)
                return "seq", c.args[1], el, True
        if c.op == "call" and c.args[0] == "range":
            return "seq", sub(c.args[2], c.args[1]), lambda i, y: add(c.args[1], i)
        if x and x[0] == "list" or x == "str":
            return "seq", length(c), lambda i, y: self.ritem(it, i, y)
        if x and x[0] == "dict":
            kq = keys(c)
            return "seq", length(kq), lambda i, y: idx(kq, i)
        if x and x[0] == "set" or c.op in ("keys", "iterset", "iterof"):
            q = seq_of(c)
            return "seq", length(q), lambda i, y: idx(q, i)
        if c.op in ("sorted", "cat", "astuple", "slice"):
            q = seq_of(c)
            return "seq", length(q), lambda i, y: idx(q, i)
        if self.is_lv(it):
            return "seq", length(c), lambda i, y: self.ritem_any(it, i, y)
        return "seq", length(c), lambda i, y: key(c, i)

    def ritem_any(self, it, i, st):
        return key(self.content(it, st), i) if True else None

    def toseq(self, v, st):
        """Sequence term of an iterable value (elements may be references)."""
        v = self.iterable(v, st)
        if v.op == "itr":
            s = None
            if v.args[0] == "filter":
                f, src = v.args[1], v.args[2]
                s = self.source(src, st)
                if s[0] == "lit":
                    return cat(*[ite(truthy(self.fz(self.apply(f, [x], {}, st, None) if f is not NONE else x, st)), lst(x), lst()) for x in s[1]])
                i = fresh_ix()
                x = s[2](i, st)
                c = truthy(self.fz(self.apply(f, [x], {}, st, None) if f is not NONE else x, st))
                return flat(s[1], i, ite(c, lst(self.fz(x, st)), lst()))
            s = self.source(v, st)
            if s[0] == "lit":
                return lst(*s[1])
            i = fresh_ix()
            return flat(s[1], i, lst(self.fz(s[2](i, st), st)))
        c = self.content(v, st) if v.lv and self.is_lv(v) else v
        if c.op == "ite" and c.lv:
            return lift(lambda y: self.toseq(y, st), c)
        if c.op == "list":
            return c
        if c.op == "tuple":
            return lst(*c.args)
        return seq_of(self.fz(c, st))

    def alternatives(self, it, st):
        """[(condition, iterable)] of an iterable that depends on conditions."""
        if it.op == "itr" and it.args[0] in ("reversed", "enumerate", "items", "values"):
            inner = self.alternatives(it.args[1], st)
            if len(inner) > 1:
                return [(c, _raw("itr", it.args[0], x, *it.args[2:])) for c, x in inner]
            return [(TRUE, it)]
        if it.op == "ite" and not self.is_lv(it):
            seen = {}
            for _, x in leaves(it):
                seen.setdefault(x, None)
            if len(seen) <= 5:
                return [(kind_is(it, x), x) for x in seen]
        return [(TRUE, it)]

    def for_(self, it, body, st, node, orelse=()):
        it = self.iterable(it, st, node)
        alts = self.alternatives(it, st)
        if len(alts) > 1:
            # iterate over alternatives: one of them is usually empty
            def run(x, k):
                if k == len(alts) - 1:
                    self.for_(alts[k][1], body, x, node, orelse)
                else:
                    self.branch(alts[k][0], x, lambda y: self.for_(alts[k][1], body, y, node, orelse), lambda y: run(y, k + 1))
            run(st, 0)
            return
        if self.is_lv(it):
            c = self.content(it, st)
            if c.op == "ite" and not c.lv:
                a = cond_atom(c.args[0])
                lo, hi = c.args[2], c.args[1]
                if any(z.op == "list" and not z.args for _, z in leaves(c)):
                    def run2(x, v):
                        self.for_(v, body, x, node, orelse)
                    self.branch(a, st, lambda x: run2(x, hi), lambda x: run2(x, lo))
                    return
        src = self.source(it, st)
        if src[0] == "lit":
            return self.unroll(src[1], body, st, node, orelse)
        n, elem = src[1], src[2]
        if n.op == "ite":
            pass
        if len(src) > 3:
            def b2(v, x):
                return self.guarded(v, body, x)
        else:
            b2 = body
        fid = self.fr.id
        cname = "<i%d>" % id(node)
        st.frames[fid][cname] = ZERO
        n = self.fz(n, st)

        def head(x):
            i = x.frames[fid][cname]
            return ge0(sub(sub(n, i), ONE))

        def run(x):
            i = x.frames[fid][cname]
            x.frames[fid][cname] = add(i, ONE)
            b2(elem(i, x), x)

        self.loop(st, head, run, node, orelse, counter=(fid, cname))
        st.frames[fid].pop(cname, None)

    def guarded(self, v, body, st):
        """Run body on the diagram v of values, skipping SKIP."""
        if v is SKIP:
            return
        if v.op == "ite":
            c = kind_isnot(v, SKIP)
            if c is TRUE:
                return body(v, st)
            vv = constrain(v, c)
            self.branch(c, st, lambda x: body(vv, x), lambda x: None)
            return
        body(v, st)

    def unroll(self, vals, body, st, node, orelse):
        outer = self.exits
        breaks = []
        for v in vals:
            self.exits = []
            if st.alive is FALSE:
                self.exits = outer
                break
            body(v, st)
            mine = self.exits
            self.exits = outer
            for e in mine:
                if e.kind == "continue":
                    self.rejoin(st, e)
                elif e.kind == "break":
                    breaks.append(e)
                else:
                    self.exits.append(e)
        if orelse and st.alive is not FALSE:
            self.block(orelse, st)
        for e in breaks:
            self.rejoin(st, e)

    def rejoin(self, st, e):
        """Control that left at e comes back here."""
        x = e.state
        x.alive = e.guard
        if st.alive is FALSE:
            st.take(x)
            return
        a = st.alive
        cur = st.copy()
        self.join(st, e.guard, x, cur)
        st.alive = or_(a, e.guard)

    def loop(self, st, head, body, node, orelse=(), counter=None):
        """General loop: find what it changes, then its recurrences."""
        st0 = st
        mod = []
        if counter:
            mod.append(("v",) + counter)
        # names assigned in the body
        fid = self.fr.id
        if node is not None and hasattr(node, "body"):
            for s in node.body if isinstance(node.body, list) else []:
                for x in ast.walk(s):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        k = ("v", fid, x.id)
                        if x.id in st.frames[fid] and k not in mod and x.id not in self.fr.globals and x.id not in self.fr.nonlocals:
                            mod.append(k)
        for _round in range(12):
            syms, inits, pseudo = {}, {}, {}
            s = st0.copy()
            s.alive = TRUE
            for k in mod:
                if k[0] == "v":
                    v0 = st0.frames[k[1]][k[2]]
                    f0 = self.fz(v0, st0)
                    ls = fresh("ls", ty(f0) if ty(f0) != "none" else None)
                    syms[k], inits[k] = ls, f0
                    x = ty(f0)
                    if v0.lv or (x and (x[0] in ("list", "dict", "set", "inst"))):
                        r = fresh("ref")
                        s.heap[r] = ls
                        if v0 in self.factories:
                            self.factories[r] = self.factories[v0]
                        s.frames[k[1]][k[2]] = r
                        pseudo[k] = r
                    else:
                        s.frames[k[1]][k[2]] = ls
                else:
                    c0 = self.fz(self.content(k[1], st0), st0)
                    ls = fresh("ls", ty(c0))
                    syms[k], inits[k] = ls, c0
                    s.heap[k[1]] = ls
            start = s.copy()
            outer = self.exits
            self.exits = []
            mark = len(self.opaque_log)
            test = head(s)
            pre = [e for e in self.exits]
            headst = s.copy()
            s.alive = and_(s.alive, test)
            if s.alive is not FALSE:
                body(s)
            mine = self.exits
            self.exits = outer
            for e in mine:
                if e.kind == "continue":
                    self.rejoin(s, e)
            ends = [s] + [e.state for e in mine if e.kind != "continue"] + [headst]
            new = []
            for x in ends:
                if x.alive is FALSE and x is s:
                    continue
                for f, fr in start.frames.items():
                    for n, v in fr.items():
                        k = ("v", f, n)
                        if k in syms or k in new:
                            continue
                        if x.frames.get(f, {}).get(n, v) is not v:
                            new.append(k)
                for r in set(x.heap):
                    k = ("h", r)
                    if k in syms or k in new or r in pseudo.values():
                        continue
                    if r in start.heap:
                        if x.heap[r] is not start.heap[r]:
                            new.append(k)
                    elif r.op == "root":
                        if x.heap[r] is not self.content(r, start):
                            new.append(k)
            if not new:
                break
            mod += new
            self.opaque_log[mark:] = []
        else:
            raise Stuck("loop")
        # types of state variables that change type
        retype = False
        known_roots = set(start.heap) | {k[1] for k in mod if k[0] == "h"}

        def value(k, x):
            """Value of state variable k in state x, without references made in the iteration."""
            if k[0] == "v":
                v = x.frames[k[1]].get(k[2], UNDEF)
            else:
                v = self.content(k[1], x)
            if not v.lv:
                return v
            if k in pseudo and v is pseudo[k]:
                return self.fz(x.heap[v], x)
            return self.fz(v, x)

        keys_ = list(mod)
        brks = [e for e in mine if e.kind == "break"]
        rets = [e for e in mine if e.kind == "ret"]
        rais = [e for e in mine if e.kind == "raise"]
        kind = CONT
        blab = lbl("brk2") if orelse else BRK
        for e in brks:
            kind = ite(e.guard, blab, kind)
        for e in rets:
            kind = ite(e.guard, lbl("ret"), kind)
        for e in rais:
            kind = ite(e.guard, lbl("raise"), kind)
        pre_r = FALSE
        for e in pre:
            if e.kind == "raise":
                pre_r = or_(pre_r, e.guard)
        k_end = BRK
        kind = ite(test, kind, k_end)
        if pre_r is not FALSE:
            kind = ite(pre_r, lbl("raise"), kind)
        nexts = [value(k, s) if s.alive is not FALSE else syms[k] for k in keys_]
        S = [syms[k] for k in keys_]
        I = [inits[k] for k in keys_]
        # agree on types
        for k, nx in zip(keys_, nexts):
            t0 = TYPES.get(syms[k])
            t1 = ty(nx)
            if t0 is not None and t1 is not None and t0 != t1:
                j = join_ty(t0, t1)
                if t0 in ("int", "str", "bool") and j is None:
                    TYPES[syms[k]] = None
                    TM._TY.clear()

        def run(out, label):
            return mk_loop(S, I, kind, nexts, out, label)

        # exits that leave the function
        base = st0.alive
        final = st0.copy()

        def after(x, outs, label):
            for k in keys_:
                v = run(outs(k), label)
                if k[0] == "v":
                    if k in pseudo and self.imm(v) is False and not v.lv:
                        v = self.alloc(v, x)
                        if pseudo[k] in self.factories:
                            self.factories[v] = self.factories[pseudo[k]]
                    x.frames[k[1]][k[2]] = v
                else:
                    x.heap[k[1]] = v

        gone = FALSE
        for label, es in (("raise", rais), ("ret", rets)):
            if not es:
                continue
            c = run(None, label)
            if c is FALSE:
                continue
            gone = or_(gone, c)

            def merged(f):
                r = f(es[-1])
                for e in reversed(es[:-1]):
                    r = ite(e.guard, f(e), r)
                return r

            x = st0.copy()
            after(x, lambda k: merged(lambda e: value(k, e.state)), label)
            v = merged(lambda e: self.fz(e.value, e.state))
            if label == "raise":
                v = run(v, label) if v.fs else v
            else:
                v = run(v, label)
                if not self.imm(v) and not v.lv:
                    v = self.alloc(v, x)
            self.exits.append(Exit(label, and_(base, c), v, x, es[0].node))
        # normal continuation
        x = st0.copy()

        def out_end(k):
            r = value(k, headst)
            if not orelse and brks:
                b = value(k, brks[-1].state)
                for e in reversed(brks[:-1]):
                    b = ite(e.guard, value(k, e.state), b)
                r = ite(test, b, r)
            return r

        after(x, out_end, "brk")
        x.alive = and_(base, not_(gone))
        if orelse:
            if brks:
                y = st0.copy()

                def out_b(k):
                    b = value(k, brks[-1].state)
                    for e in reversed(brks[:-1]):
                        b = ite(e.guard, value(k, e.state), b)
                    return b

                c = run(None, "brk2")
                after(y, out_b, "brk2")
                y.alive = and_(base, c)
                x.alive = and_(x.alive, not_(c))
                if x.alive is not FALSE:
                    self.block(orelse, x)
                if y.alive is not FALSE:
                    a = x.alive
                    z = x.copy()
                    self.join(x, c, y, z)
                    x.alive = or_(a, y.alive)
            else:
                self.block(orelse, x)
        st.take(x)

    # ------------------------------------------------------ expressions

    def note(self, t, node):
        if node is not None and hasattr(node, "lineno") and t not in self.locs and t.op not in ("c",):
            m = self.stack[-1].mod if self.stack else None
            self.locs[t] = (m.path if m else "?", node.lineno, self.stack[-1].name if self.stack else "?")

    def cond(self, e, st):
        v = self.ev(e, st)
        return self.truth(v, st)

    def truth(self, v, st):
        if v.lv and self.is_lv(v):
            c = self.content(v, st)
            if not c.lv:
                return truthy(c)
        if v.op == "itr":
            return TRUE
        u = self.user(v, st)
        if u is not None and u[1]:
            if self.p.find_member(u[0], "__len__"):
                return truthy(self.b_len([v], {}, st, None))
            return truthy(self.fz(self.rattr(v, "data", st), st))
        return truthy(self.fz(v, st))

    def ev(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.opaque_log.append(("expression " + type(e).__name__, e))
            return opaque("unsupported expression", type(e).__name__)
        v = m(e, st)
        self.note(v, e)
        return v

    def e_Constant(self, e, st):
        if e.value is Ellipsis or isinstance(e.value, (bytes, complex)):
            return _raw("c", type(e.value).__name__, repr(e.value))
        return const(e.value)

    def e_Name(self, e, st):
        return self.name(e.id, st)

    def name(self, n, st):
        f = self.fr
        if n not in f.globals:
            fr = st.frames.get(f.id, {})
            if n in fr:
                return fr[n]
            fid = f.closure
            while fid is not None:
                fr = st.frames.get(fid, {})
                if n in fr:
                    return fr[n]
                fid = self.frame_parent.get(fid)
        if n in self.rebound(f.mod):
            return self.rattr(root(f.mod.name + ".<globals>"), n, st)
        r = root("%s.%s" % (f.mod.name, n))
        if r in st.heap:
            return r
        v = self.modname(f.mod.name, n, st)
        if v is not None:
            return v
        if n in BUILTIN_PURE or hasattr(builtins, n):
            return glob(n)
        return opaque("name", n)

    def rebound(self, mod):
        """Names of a module that its functions assign anew."""
        memo = self.__dict__.setdefault("_rebound", {})
        if mod.name not in memo:
            memo[mod.name] = {k for x in ast.walk(mod.tree) if isinstance(x, ast.Global) for k in x.names}
        return memo[mod.name]

    def modname(self, modname, n, st):
        if n == "__path__" or n == "__name__" or n == "__file__":
            return sym("%s.%s" % (modname, n))
        r = self.p.lookup(modname, n)
        if r is None:
            return None
        if r[0] == "def":
            return self.mkfn(r[1], r[2], None, None, r[1].name)
        if r[0] == "cls":
            return _raw("cls", r[1].qual)
        if r[0] == "mod":
            return _raw("modref", r[1])
        if r[0] == "ext":
            return glob(r[1])
        if r[0] == "expr":
            return self.modconst(r[1], r[2], n, st)
        return None

    def modconst(self, node, mod, n, st):
        key_ = root("%s.%s" % (mod.name, n))
        memo = self.__dict__.setdefault("_modconst", {})
        if (mod.name, n) not in memo:
            memo[(mod.name, n)] = opaque("recursive module value", n)
            ev = State()
            fr = Frame(self, mod, None, "<module %s>" % mod.name)
            ev.frames[fr.id] = {}
            self.stack.append(fr)
            ex = self.exits
            self.exits = []
            try:
                v = self.fz(self.ev(node, ev), ev)
            finally:
                self.stack.pop()
                self.exits = ex
            # assigned more than once: unknown
            if len(mod.assigns.get(n, [])) > 1:
                v = sym("%s.%s" % (mod.name, n))
            memo[(mod.name, n)] = v
        v = memo[(mod.name, n)]
        x = ty(v)
        if v.op in ("list", "cat", "flat", "dictof", "setof", "obj") or (x and x[0] in ("list", "dict", "set")):
            if v.op in ("list",) and v.args or v.op == "dictof" and v.args[0] is not lst() or v.op == "setof":
                # treated as constant content unless changed
                if key_ not in st.heap:
                    st.heap[key_] = v
                return key_
            TYPES.setdefault(key_, x)
            TYPES.setdefault(sym(key_.args[0]), x)
            return key_
        return v

    def mkfn(self, node, mod, cls, frame, name):
        k = (id(node), frame)
        if k not in self.fns:
            self.fns[k] = Fn(node, mod, cls, frame, name)
        return _raw("pyfn", name, id(node), -1 if frame is None else frame)

    def fn_of(self, t):
        return self.fns[(t.args[1], None if t.args[2] == -1 else t.args[2])]

    def e_Lambda(self, e, st):
        return self.mkfn(e, self.fr.mod, None, self.fr.id, "<lambda>")

    def e_Tuple(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return astuple(self.seqdisplay(e.elts, st))
        return tup(*[self.ev(x, st) for x in e.elts])

    def seqdisplay(self, elts, st):
        parts = []
        for x in elts:
            if isinstance(x, ast.Starred):
                parts.append(self.toseq(self.ev(x.value, st), st))
            else:
                v = self.ev(x, st)
                parts.append(lst(self.pv(v, st)))
        return cat(*parts)

    def pv(self, v, st):
        """Value as stored in a container."""
        if v.lv and not self.is_lv(v) and v.op not in ("ite", "tuple", "list", "bound"):
            return self.fz(v, st)
        return v

    def e_List(self, e, st):
        return self.alloc(self.seqdisplay(e.elts, st), st)

    def e_Set(self, e, st):
        return self.alloc(setof(self.fz(self.seqdisplay(e.elts, st), st)), st)

    def e_Dict(self, e, st):
        d = dictof(lst())
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.fz(self.ev(v, st), st)
                d = dictupd(d, self.pairs(x))
            else:
                kk = self.fz(self.ev(k, st), st)
                d = store(d, kk, self.pv(self.ev(v, st), st))
        return self.alloc(d, st)

    def pairs(self, d):
        """Pairs of a mapping as a sequence."""
        def f(d):
            if d.op == "dictof":
                return d.args[0]
            i = fresh_ix()
            n = length(d)
            return _raw("pairs", d)
        return lift(f, d)

    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.fz(self.ev(v.value, st), st)
                if v.format_spec is not None or v.conversion not in (-1, 115):
                    parts.append(_raw("call", "format", x, const(ast.dump(v.format_spec) if v.format_spec else ""), const(v.conversion)))
                else:
                    parts.append(fmtv(x))
        return strcat(*parts)

    def e_FormattedValue(self, e, st):
        return fmtv(self.fz(self.ev(e.value, st), st))

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.assign(e.target, v, st)
        return v

    def e_IfExp(self, e, st):
        c = self.cond(e.test, st)
        return self.branch(c, st, lambda x: self.ev(e.body, x), lambda x: self.ev(e.orelse, x))

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)

        def go(i, x):
            n = e.values[i]
            neg_ = isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not)
            k = n.operand if neg_ else n
            if isinstance(k, (ast.Name, ast.Attribute, ast.Subscript)) and any(
                isinstance(w, ast.Compare) and len(w.ops) == 1 and isinstance(w.ops[0], (ast.Lt, ast.Gt, ast.LtE, ast.GtE)) and ast.dump(k) in (ast.dump(w.left), ast.dump(w.comparators[0]))
                for w in e.values
            ) and self.lose("zero taken for nothing", n):
                v = self.identical(self.fz(self.ev(k, x), x), NONE, x)
                v = v if neg_ else not_(v)
            else:
                v = self.ev(n, x)
            if i == len(e.values) - 1:
                return v
            c = self.truth(v, x)
            v2 = v
            if isand:
                # v is kept where it is false
                r = self.branch(c, x, lambda y: go(i + 1, y), lambda y: self.falsy(v, y))
            else:
                r = self.branch(c, x, lambda y: v, lambda y: go(i + 1, y))
            return r

        return go(0, st)

    def falsy(self, v, st):
        t = self.tyof(v, st)
        if t == "bool":
            return FALSE
        if t == "str":
            return EMPTY_STR
        return v

    def e_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            return not_(self.cond(e.operand, st))
        v = self.fz(self.ev(e.operand, st), st)
        if isinstance(e.op, ast.USub):
            return neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        return _raw("arith", "~", v, NONE)

    def e_BinOp(self, e, st):
        return self.binop(e.op, self.ev(e.left, st), self.ev(e.right, st), st, e)

    def binop(self, op, a, b, st, node):
        ta, tb = self.tyof(a, st), self.tyof(b, st)
        if isinstance(op, ast.Add) and ((ta and ta[0] == "list") or (tb and tb[0] == "list")):
            return self.alloc(cat(self.toseq(a, st), self.toseq(b, st)), st)
        if isinstance(op, ast.Mult) and ((ta and ta[0] == "list") or (tb and tb[0] == "list")):
            x, n = (a, b) if (ta and ta[0] == "list") else (b, a)
            return self.alloc(mul(self.fz(self.toseq(x, st), st), self.fz(n, st)), st)
        a, b = self.fz(a, st), self.fz(b, st)
        if isinstance(op, ast.Add):
            return add(a, b)
        if isinstance(op, ast.Sub):
            if (ta and ta[0] == "set") or (tb and tb[0] == "set"):
                return method("difference", a, b)
            return sub(a, b)
        if isinstance(op, ast.Mult):
            return mul(a, b)
        if isinstance(op, ast.Mod):
            if a.op == "c" and type(cval(a)) is str:
                return self.percent(cval(a), b)
            if ta == "str":
                return _raw("call", "%format", a, b)
            return arith("%", a, b)
        if isinstance(op, (ast.BitAnd, ast.BitOr)):
            n = "intersection" if isinstance(op, ast.BitAnd) else "union"
            if ty(a) == "bool" and ty(b) == "bool":
                return and_(truthy(a), truthy(b)) if n == "intersection" else or_(truthy(a), truthy(b))
            if a.op == "glob" or b.op == "glob":
                for u, v in ((a, b), (b, a)):
                    if u.op == "glob" and u.args[0] in ("re.I", "re.IGNORECASE") and self.lose("letter case ignored", node):
                        return v
                return _raw("flags", *sorted((a, b), key=lambda x: x.id))
            if n == "union" and (ta and ta[0] == "dict"):
                return self.alloc(dictupd(a, self.pairs(b)), st)
            return setop(n, a, b)
        sym_ = {ast.Div: "/", ast.FloorDiv: "//", ast.Pow: "**"}.get(type(op))
        if sym_:
            return arith(sym_, a, b)
        return _raw("arith", type(op).__name__, a, b)

    def percent(self, fmt, b):
        args = list(b.args) if b.op == "tuple" else [b]
        out, i, j = [], 0, 0
        while i < len(fmt):
            k = fmt.find("%", i)
            if k < 0:
                out.append(const(fmt[i:]))
                break
            out.append(const(fmt[i:k]))
            c = fmt[k + 1:k + 2]
            if c == "%":
                out.append(const("%"))
            elif c in ("s", "d") and j < len(args):
                out.append(fmtv(args[j]))
                j += 1
            else:
                return _raw("call", "%format", const(fmt), b)
            i = k + 2
        return strcat(*out)

    def e_Compare(self, e, st):
        left = self.ev(e.left, st)
        r = TRUE
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c, st)
            if isinstance(op, (ast.Lt, ast.Gt)) and len(e.ops) == 1 and self.lose("order reversed", e):
                op = ast.Gt() if isinstance(op, ast.Lt) else ast.Lt()
            r = and_(r, self.compare(op, left, right, st))
            left = right
        return r

    def compare(self, op, a, b, st):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.identical(a, b, st)
            return r if isinstance(op, ast.Is) else not_(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            x = self.fz(a, st)
            if b.op == "itr":
                c = self.fz(self.toseq(b, st), st)
            else:
                u = self.user(b, st)
                if u is not None:
                    d = self.dunder(b, u[0], "__contains__", [a], st, None)
                    if d is not None:
                        d = self.truth(d, st)
                        return d if isinstance(op, ast.In) else not_(d)
                    if u[1]:
                        b = self.rattr(b, "data", st)
                c = self.fz(b, st)
            r = in_(x, c)
            return r if isinstance(op, ast.In) else not_(r)
        a, b = self.fz(a, st), self.fz(b, st)
        if isinstance(op, ast.Eq):
            return eq(a, b)
        if isinstance(op, ast.NotEq):
            return not_(eq(a, b))
        if isinstance(op, ast.Lt):
            return lt(a, b)
        if isinstance(op, ast.Gt):
            return lt(b, a)
        if isinstance(op, ast.LtE):
            return le(a, b)
        return le(b, a)

    def identical(self, a, b, st):
        def f(a, b):
            if a is b:
                return TRUE
            for x, y in ((a, b), (b, a)):
                if x is NONE:
                    return isnone(self.fz(y, st))
            if a.op == "ref" and b.op == "ref":
                return FALSE
            return is_(self.fz(a, st), self.fz(b, st))
        return lift(f, a, b)

    def ev_slice(self, s, st):
        return self.fz(self.ev(s, st), st)

    def e_Subscript(self, e, st):
        o = self.ev(e.value, st)
        if isinstance(e.slice, ast.Slice):
            lo = self.fz(self.ev(e.slice.lower, st), st) if e.slice.lower else NONE
            hi = self.fz(self.ev(e.slice.upper, st), st) if e.slice.upper else NONE
            if e.slice.step is None and ((is_const(lo) and lo not in (NONE, ZERO)) or (is_const(hi) and hi is not NONE)) and self.lose("slice", e):
                return o
            if e.slice.step is not None:
                stp = self.fz(self.ev(e.slice.step, st), st)
                if is_const(stp) and cval(stp) == -1 and lo is NONE and hi is NONE:
                    x = self.tyof(o, st)
                    if x != "str":
                        return self.alloc(self.fz(self.toseq(_raw("itr", "reversed", o), st), st), st)
                return _raw("call", "slice3", self.fz(o, st), lo, hi, stp)
            c = self.fz(o, st)
            r = slice_(c, lo, hi)
            if is_seq(r) or is_seq(c):
                return self.alloc(r, st)
            return r
        k = self.ev(e.slice, st)
        if o.op == "call" and o.args[0] == "globals":
            return _raw("call", "globalname", self.fz(k, st))
        if self.implicit and st.alive is not FALSE:
            names = set().union(*self.implicit)
            c = self.fz(o, st)
            x = ty(c)
            kk = self.fz(k, st)
            if names & {"KeyError", "LookupError", "Exception", "BaseException"} and not (x and x[0] == "list") and x != "str":
                g = not_(in_(kk, c))
                if g is not FALSE:
                    self.exits.append(Exit("raise", and_(st.alive, g), _raw("exc", "KeyError"), st.copy(), e))
                    st.alive = and_(st.alive, not_(g))
        return self.getitem(o, k, st, e)

    def getitem(self, o, k, st, node):
        if o.op == "ite":
            c = cond_atom(o.args[0])
            return self.branch(c, st, lambda x: self.getitem(o.args[1], k, x, node), lambda x: self.getitem(o.args[2], k, x, node))
        u = self.user(o, st)
        if u is not None:
            r = self.dunder(o, u[0], "__getitem__", [k], st, node)
            if r is not None:
                return r
            if u[1]:
                return self.ritem(self.rattr(o, "data", st), k, st)
        return self.ritem(o, k, st)

    def e_Starred(self, e, st):
        return self.ev(e.value, st)

    def e_Attribute(self, e, st):
        o = self.ev(e.value, st)
        return self.getattr_(o, e.attr, st, e)

    def class_of(self, o, st):
        if o.op == "cls":
            return None
        t = self.tyof(o, st)
        if t and t[0] == "opt":
            t = t[1]
        if t and t[0] == "inst":
            return self.p.classes.get(t[1])
        return None

    def getattr_(self, o, name, st, node):
        if o.op == "ite":
            c = cond_atom(o.args[0])
            return self.branch(c, st, lambda x: self.getattr_(o.args[1], name, x, node), lambda x: self.getattr_(o.args[2], name, x, node))
        if o.op == "modref":
            v = self.binding(o.args[0], name, st)
            return v
        if o.op == "glob":
            return glob(o.args[0] + "." + name)
        if o.op == "cls":
            c = self.p.classes[o.args[0]]
            m = self.p.find_member(c, name)
            if m:
                return self.member(m, o, name, st, None)
            if name == "__name__":
                return const(c.name)
            r = root(o.args[0])
            if r in st.heap:
                return self.rattr(r, name, st)
            return _raw("clsattr", o, name)
        if o.op == "super":
            cls = self.p.classes[o.args[0]]
            start = self.p.classes[o.args[1]]
            m = self.p.find_member(start, name, after=cls)
            if m:
                return self.member(m, o.args[2], name, st, o.args[2])
            return _raw("bound", _raw("extsuper", name), o.args[2])
        c = self.class_of(o, st)
        if c is not None:
            m = self.p.find_member(c, name)
            if m:
                return self.member(m, o, name, st, o)
            if name == "__class__":
                return _raw("cls", c.qual)
        if name == "__class__":
            return typeof(self.fz(o, st))
        return self.rattr(o, name, st)

    def member(self, m, o, name, st, inst):
        cls, node = m
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            f = self.mkfn(node, cls.mod, cls, None, cls.name + "." + node.name)
            decs = []
            for d in node.decorator_list:
                r = self.p.resolve_expr(cls.mod.name, d.func if isinstance(d, ast.Call) else d)
                decs.append(r[1] if r and r[0] == "ext" else "?")
            if "property" in decs or "functools.cached_property" in decs:
                if inst is not None:
                    if "functools.cached_property" in decs:
                        self.opaque_log.append(("decorator functools.cached_property", node))
                    return self.call_def(node, cls.mod, cls, [inst], {}, st, None, node)
                return f
            if "staticmethod" in decs:
                return f
            if "classmethod" in decs:
                t = self.class_of(o, st) if inst is not None else None
                return _raw("bound", f, _raw("cls", t.qual) if t else o)
            for d in decs:
                if d not in ("marshmallow.pre_load", "marshmallow.post_load", "marshmallow.pre_dump", "marshmallow.post_dump", "marshmallow.validates_schema"):
                    self.opaque_log.append(("decorator " + d, node))
            if inst is None:
                return f
            return _raw("bound", f, inst)
        if isinstance(node, ast.ClassDef):
            return opaque("nested class")
        # class attribute
        if inst is not None and inst.op in ("ref", "root"):
            c = self.content(inst, st)
            while c.op == "ostore":
                if c.args[1] == name:
                    return self.rattr(inst, name, st)
                c = c.args[0]
            if c.op == "obj" and name in c.args[1]:
                return self.rattr(inst, name, st)
        return self.modconst(node, cls.mod, cls.name + "." + name, st)

    # ------------------------------------------------------------ calls

    def e_Call(self, e, st):
        # method calls on containers and the like keep the receiver as a reference
        f = e.func
        if isinstance(f, ast.Attribute):
            o = self.ev(f.value, st)
            return self.callattr(o, f.attr, e, st)
        if isinstance(f, ast.Name) and f.id == "super" and not e.args:
            fr = self.fr
            slf = st.frames[fr.id].get(fr.selfname) if fr.selfname else None
            if fr.cls is not None and slf is not None:
                c = self.class_of(slf, st) or fr.cls
                return _raw("super", fr.cls.qual, c.qual, slf)
        fv = self.ev(f, st)
        args, kw = self.args(e, st)
        if st.alive is FALSE:
            return NONE
        return self.apply(fv, args, kw, st, e)

    def args(self, e, st):
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                s = self.toseq(v, st)
                if s.op == "list":
                    args += list(s.args)
                else:
                    args.append(_raw("star", self.fz(v, st)))
            else:
                args.append(self.ev(a, st))
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                c = self.fz(v, st)
                if c.op == "dictof" and c.args[0].op == "list" and all(is_const(p.args[0]) for p in c.args[0].args):
                    cc = self.content(v, st) if self.is_lv(v) else v
                    for p in cc.args[0].args:
                        kw[cval(p.args[0])] = p.args[1]
                else:
                    kw["**"] = v
            else:
                kw[k.arg] = v
        return args, kw

    def callattr(self, o, name, e, st):
        if o.op == "ite":
            # method on alternatives
            c = cond_atom(o.args[0])
            return self.branch(c, st, lambda x: self.callattr(o.args[1], name, e, x), lambda x: self.callattr(o.args[2], name, e, x))
        if o.op in ("modref", "glob", "cls", "super"):
            fv = self.getattr_(o, name, st, e)
            args, kw = self.args(e, st)
            return self.apply(fv, args, kw, st, e)
        c = self.class_of(o, st)
        if c is not None:
            m = self.p.find_member(c, name)
            if m:
                fv = self.member(m, o, name, st, o)
                args, kw = self.args(e, st)
                return self.apply(fv, args, kw, st, e)
        # a function held in an attribute
        if self.is_lv(o):
            v = attr(self.content(o, st), name)
            if v.op in ("pyfn", "bound", "glob", "cls"):
                args, kw = self.args(e, st)
                return self.apply(v, args, kw, st, e)
        args, kw = self.args(e, st)
        if st.alive is FALSE:
            return NONE
        return self.meth(o, name, args, kw, st, e)

    def apply(self, f, args, kw, st, node):
        if f.op == "ite":
            c = cond_atom(f.args[0])
            return self.branch(c, st, lambda x: self.apply(f.args[1], args, kw, x, node), lambda x: self.apply(f.args[2], args, kw, x, node))
        if f.op == "pyfn":
            fn = self.fn_of(f)
            return self.call_def(fn.node, fn.mod, fn.cls, args, kw, st, fn.frame, node)
        if f.op == "bound":
            if f.args[0].op == "extsuper":
                return self.extsuper(f.args[0].args[0], f.args[1], args, kw, st, node)
            return self.apply(f.args[0], [f.args[1]] + args, kw, st, node)
        if f.op == "cls":
            return self.instantiate(self.p.classes[f.args[0]], args, kw, st, node)
        if f.op == "glob":
            return self.external(f.args[0], args, kw, st, node)
        if f.op == "attr" and self.is_lv(f.args[0]) or f.op == "attr":
            return self.meth(f.args[0], f.args[1], args, kw, st, node)
        if f.op == "partial":
            return self.apply(f.args[0], list(f.args[1:]) + args, kw, st, node)
        if f.op == "getter":
            return self.getattr_(args[0], f.args[0], st, node)
        if f.op == "igetter":
            return self.ritem(args[0], f.args[0], st)
        if f.op == "opaque":
            self.opaque_log.append(("call of unknown function", node))
        return _raw("m", "__call__", self.fz(f, st), *self.fargs(args, kw, st))

    def havoc(self, args, kw, st):
        pass

    def fargs(self, args, kw, st):
        out = [self.fz(self.itseq(a, st), st) for a in args]
        for k in sorted(kw):
            out.append(_raw("kw", k, self.fz(self.itseq(kw[k], st), st)))
        return out

    def itseq(self, a, st):
        if a.op == "itr":
            return self.toseq(a, st)
        return a

    def call_def(self, node, mod, cls, args, kw, st, closure, at):
        if node in self.instead:
            node, mod, cls = self.instead[node]
        depth = sum(1 for f in self.stack if f.node is node)
        if depth >= 2 or len(self.stack) > self.MAXDEPTH:
            self.opaque_log.append(("recursion", at))
            return _raw("m", "__rec__", const(getattr(node, "name", "lambda")), *self.fargs(args, kw, st))
        fr = Frame(self, mod, cls, (cls.name + "." if cls else "") + getattr(node, "name", "<lambda>"))
        fr.node = node
        fr.closure = closure
        self.frame_parent[fr.id] = closure
        a = node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        if params and cls is not None:
            fr.selfname = params[0]
        pos = list(args)
        for p in params:
            if pos:
                if pos[0].op == "star":
                    break
                env[p] = pos.pop(0)
        if pos and a.vararg:
            env[a.vararg.arg] = tup(*pos) if not any(x.op == "star" for x in pos) else astuple(cat(*[seq_of(x.args[0]) if x.op == "star" else lst(x) for x in pos]))
        elif a.vararg:
            env[a.vararg.arg] = tup()
        elif pos:
            for x in pos:
                if x.op == "star":
                    j = 0
                    for p in params:
                        if p not in env:
                            env[p] = idx(x.args[0], const(j))
                            j += 1
        names = set(params) | {x.arg for x in a.kwonlyargs}
        rest = {}
        for k, v in kw.items():
            if k == "**":
                continue
            if k in names:
                env[k] = v
            else:
                rest[k] = v
        star = kw.get("**")
        if a.kwarg:
            if star is not None:
                c = self.fz(star, st)
                for k in [p for p in names if p not in env]:
                    if in_(const(k), c) is not FALSE:
                        c = del_(c, const(k))
                d = c
                for k, v in rest.items():
                    d = store(d, const(k), v)
                env[a.kwarg.arg] = self.alloc(d, st)
            else:
                env[a.kwarg.arg] = self.alloc(dictof(lst(*[tup(const(k), self.pv(v, st)) for k, v in sorted(rest.items())])), st)
        elif rest:
            for k in rest:
                self.opaque_log.append(("unexpected keyword argument %s" % k, at))
        # defaults
        dpos = dict(zip(params[len(params) - len(a.defaults):], a.defaults))
        dkw = {x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        for p in list(params) + [x.arg for x in a.kwonlyargs]:
            if p in env:
                continue
            d = dpos.get(p, dkw.get(p))
            dv = None
            if d is not None:
                dv = self.default(d, mod, cls, node, p, closure, st)
            if star is not None:
                c = self.fz(star, st)
                k = const(p)
                i = in_(k, c)
                v = self.ritem(star, k, st)
                env[p] = v if dv is None else ite(i, v, dv)
            elif dv is not None:
                env[p] = dv
            else:
                env[p] = opaque("missing argument", p)
        if node in self.stubs and at is not self.nostub:
            ps = params + [x.arg for x in a.kwonlyargs]
            if a.kwarg:
                env["**" + a.kwarg.arg] = env[a.kwarg.arg]
                ps.append("**" + a.kwarg.arg)
            r = self.stub(self.stubs[node], ps, env, st, node, cls)
            if r is not None:
                return r
        st.frames[fr.id] = env
        if isinstance(node, ast.Lambda):
            self.stack.append(fr)
            try:
                return self.ev(node.body, st)
            finally:
                self.stack.pop()
                st.frames.pop(fr.id, None)
        self.inlined.add((mod.name, fr.name))
        outer = self.exits
        self.exits = []
        alive = st.alive
        st.alive = TRUE
        self.stack.append(fr)
        gen = _is_gen(node)
        if gen:
            env["<yield>"] = self.alloc(lst(), st)
        try:
            self.block(node.body, st)
        finally:
            self.stack.pop()
        mine = self.exits
        self.exits = outer
        # results: returns in order, then falling off the end
        rets = [e for e in mine if e.kind == "ret"]
        rais = [e for e in mine if e.kind == "raise"]
        for e in rais:
            e.guard = and_(alive, e.guard)
            self.exits.append(e)
        val = NONE
        cur = None
        if st.alive is not FALSE:
            cur = st.copy()
            if gen:
                val = cur.frames[fr.id]["<yield>"]
        for e in reversed(rets):
            if cur is None:
                cur, val = e.state, e.value
                cur.alive = e.guard
            else:
                nxt = State()
                e.state.alive = e.guard
                a_ = or_(cur.alive, e.guard)
                g = constrain(e.guard, a_) if False else e.guard
                self.join(nxt, g, e.state, cur)
                val = ite(g, e.value, val) if not gen else val
                cur = nxt
                cur.alive = a_
        if cur is None:
            st.alive = FALSE
            st.frames.pop(fr.id, None)
            return NONE
        gone = FALSE
        for e in rais:
            gone = or_(gone, e.guard)
        al = and_(alive, not_(gone)) if rais else alive
        st.take(cur)
        st.alive = al
        if closure_free(val):
            st.frames.pop(fr.id, None)
        # care about the condition of returning at all
        if rais and not val.lv:
            val = constrain(val, cur_alive(al)) if False else val
        return val

    def attributes_set(self, node, cls, seen):
        """Attributes of its object that a method replaces, itself or by
        methods that it calls."""
        if cls is None or node in seen or not node.args.args:
            return set()
        seen.add(node)
        me = node.args.args[0].arg
        out = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me:
                if isinstance(n.ctx, ast.Store):
                    out.add(n.attr)
                elif isinstance(n.ctx, ast.Load):
                    r = self.p.find_member(cls, n.attr)
                    if r and isinstance(r[1], (ast.FunctionDef,)):
                        out |= self.attributes_set(r[1], cls, seen)
        return out

    def stub(self, how, params, env, st, node=None, cls=None):
        """A call of a function that is studied by itself: its value is a term
        of its arguments; it may raise."""
        name, t, raises, slf = how
        a = []
        new = name.startswith("new ")
        for p in params:
            v = env.get(p, NONE)
            if p == params[0] and (new or v is slf):
                continue
            v = self.fz(self.itseq(v, st), st)
            if p.startswith("**"):
                if v.op == "dictof" and v.args[0].op == "list":
                    a += [_raw("kw", str(cval(x.args[0])), x.args[1]) for x in v.args[0].args]
                    continue
                if new:
                    continue
            a.append(_raw("kw", p, v))
        CALL_TYPES["=" + name] = t
        v = call("=" + name, *a)
        if new:
            o = env[params[0]]
            if o.op not in ("ref", "root"):
                self.opaque_log.append(("constructor of an unknown object", None))
            else:
                st.heap[o] = v
        if self.stub_writes and slf is not None and node is not None and params and env.get(params[0]) is slf and slf in st.heap:
            for k in sorted(self.attributes_set(node, cls, set())):
                try:
                    old = self.fz(self.rattr(slf, k, st), st)
                except Stuck:
                    continue
                n = "=%s.%s" % (name, k)
                CALL_TYPES[n] = CALL_TYPES.get(n) or ty(old) if ty(old) != ("list", None) else ("list", "int") if k == "_rule_keys" else ty(old)
                w = call(n, *a)
                self.setattr_(slf, k, w if ty(w) in IMM or ty(w) is None or ty(w)[0] == "opt" and ty(w)[1] in IMM else self.alloc(w, st), st, node)
        if raises:
            g = and_(st.alive, cond_atom(_raw("truthy", call("!" + name, *a))))
            self.exits.append(Exit("raise", g, _raw("exc", raises), st.copy(), None))
            st.alive = and_(st.alive, not_(g))
        if new:
            return NONE
        if t in IMM or t is None or t[0] == "opt" and t[1] in IMM:
            return v
        return self.alloc(v, st)

    def default(self, d, mod, cls, node, p, closure, st):
        if isinstance(d, ast.Constant):
            return const(d.value)
        if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.Call)):
            r = root("default:%s.%s:%s" % (mod.name, getattr(node, "name", "lambda"), p))
            if isinstance(d, (ast.List, ast.Dict, ast.Set)):
                t = {"List": ("list", None), "Dict": ("dict", None, None), "Set": ("set", None)}[type(d).__name__]
                TYPES.setdefault(r, t)
                TYPES.setdefault(sym(r.args[0]), t)
            return r
        fr = Frame(self, mod, cls, "<default>")
        fr.closure = closure
        self.stack.append(fr)
        st.frames[fr.id] = {}
        try:
            return self.ev(d, st)
        finally:
            self.stack.pop()
            st.frames.pop(fr.id, None)

    def e_Yield(self, e, st):
        v = self.ev(e.value, st) if e.value is not None else NONE
        y = st.frames[self.fr.id].get("<yield>")
        if y is not None:
            self.update(y, lambda c: cat(c, lst(self.pv(v, st))), st, e)
        return opaque("sent value")

    def e_YieldFrom(self, e, st):
        v = self.ev(e.value, st)
        y = st.frames[self.fr.id].get("<yield>")
        x = self.toseq(v, st)
        if y is not None:
            self.update(y, lambda c: cat(c, x), st, e)
        return NONE

    def instantiate(self, cls, args, kw, st, node):
        fields = NAMEDTUPLES.get(cls.qual)
        if fields and not self.p.find_member(cls, "__new__") and not self.p.find_member(cls, "__init__"):
            d = {}
            if any(a.op == "star" for a in args):
                x = args[0].args[0]
                for i, f in enumerate(fields):
                    d[f] = idx(x, const(i))
            else:
                for f, a in zip(fields, args):
                    d[f] = a
            star = kw.get("**")
            for k, v in kw.items():
                if k != "**":
                    d[k] = v
            for f in fields:
                if f not in d:
                    d[f] = self.ritem(star, const(f), st) if star is not None else opaque("missing field", f)
            return obj(cls.qual, {k: self.pv(v, st) for k, v in d.items()})
        m = self.p.find_member(cls, "__init__")
        if m:
            r = self.alloc(obj(cls.qual, {}), st)
            self.call_def(m[1], m[0].mod, m[0], [r] + args, kw, st, None, node)
            return r
        return obj(cls.qual, {"<args>": tup(*self.fargs(args, kw, st))})

    def extsuper(self, name, slf, args, kw, st, node):
        if name == "__init__":
            c = self.class_of(slf, st)
            if c is not None and any(str(x).split(".")[-1] in ("UserList", "UserDict") for x in self.p.ext_bases(c) if isinstance(x, str)):
                islist = any(str(x).endswith("UserList") for x in self.p.ext_bases(c))
                if islist:
                    v = self.toseq(args[0], st) if args else lst()
                    if args:
                        c0 = self.fz(args[0], st)
                        v = ite(isnone(c0), lst(), self.fz(v, st)) if isnone(c0) is not FALSE else v
                    d = self.alloc(v, st)
                else:
                    base = dictof(lst())
                    if args:
                        base = dictupd(base, self.pairs(self.fz(args[0], st)))
                        x = self.fz(args[0], st)
                        if base.op == "dictof" and base.args[0].op == "pairs":
                            base = x
                    d = self.alloc(base, st)
                self.setattr_(slf, "data", d, st, node)
                return NONE
            return NONE
        return _raw("m", "super." + name, self.fz(slf, st), *self.fargs(args, kw, st))

    def trace(self, st, *item):
        c = st.heap.get(TRACE, lst())
        st.heap[TRACE] = cat(c, lst(tup(*item)))

    # ------------------------------------------------- builtin functions

    def lose(self, what, node):
        """Note a place where part of a value is lost; whether to ignore it."""
        m = self.fr.mod.name
        if m.startswith("spec_") or not hasattr(node, "lineno"):
            return False
        k = (m, node.lineno, node.col_offset, getattr(node, "end_col_offset", 0))
        self.lossy[k] = "%s (%s line %d)" % (what, m, node.lineno)
        return k == self.transparent

    def external(self, name, args, kw, st, node):
        if name == "math.isclose" and len(args) >= 2 and self.lose(name, node):
            return self.compare(ast.Eq(), args[0], args[1], st)
        if name in LOSSY and args:
            if self.lose(name, node):
                return args[-1 if name == "unicodedata.normalize" else 0]
        self.calls.append((name, node, self.fr.mod if self.stack else None, self.fr.name if self.stack else "?"))
        m = getattr(self, "b_" + name.replace(".", "_"), None)
        if m is not None:
            r = m(args, kw, st, node)
            if r is not None:
                return r
        short = name.split(".")[-1]
        if name.startswith("logging.") and short in LOGM:
            self.trace(st, const("log"), const(short))
            return NONE
        if name.startswith("re.") and short in ("match", "fullmatch", "search", "findall", "sub", "split", "finditer", "subn"):
            fa = self.fargs(args, kw, st)
            flags = [x for x in fa if x.op == "kw" and x.args[0] == "flags"]
            rest = [x for x in fa[1:] if x not in flags]
            if short == "sub":
                return self.resub(fa[0], args[1:], kw, st, node, flags)
            pat = fa[0] if ty(fa[0]) == ("inst", "re.Pattern") else call("re.compile", fa[0], *[f.args[1] for f in flags])
            return method(short, pat, *rest)
        if name == "re.compile":
            fa = self.fargs(args, kw, st)
            fa = [x.args[1] if x.op == "kw" else x for x in fa]
            names = {"re.S": "re.DOTALL", "re.I": "re.IGNORECASE", "re.M": "re.MULTILINE", "re.X": "re.VERBOSE", "re.U": "re.UNICODE"}
            fa = [glob(names.get(x.args[0], x.args[0])) if x.op == "glob" else x for x in fa]
            return call(name, *fa)
        if name in ("click.echo", "print", "click.secho"):
            self.trace(st, const("echo"), *self.fargs(args, kw, st))
            return NONE
        if hasattr(builtins, name) and isinstance(getattr(builtins, name), type) and issubclass(getattr(builtins, name), BaseException):
            return _raw("exc", name)
        if short[:1].isupper() and (short.endswith("Error") or short.endswith("Exception")):
            return _raw("exc", name, *self.fargs(args, kw, st))
        return call(name, *self.fargs(args, kw, st))

    def resub(self, pat, args, kw, st, node, flags=()):
        p = pat if ty(pat) == ("inst", "re.Pattern") else call("re.compile", pat, *[f.args[1] for f in flags])
        repl = args[0]
        if repl.op in ("pyfn", "bound"):
            s = fresh("ix", ("inst", "re.Match"))
            v = self.lam1(repl, st, "re.Match")
        else:
            v = self.fz(repl, st)
        return method("sub", p, v, *self.fargs(args[1:], {k: v for k, v in kw.items() if k != "flags"}, st))

    def lam1(self, f, st, argty=None):
        """One-argument function as a term."""
        s = fresh("ix", argty if argty is None or isinstance(argty, tuple) or argty in IMM else ("inst", argty))
        x = st.copy()
        ex, self.exits = self.exits, []
        v = self.fz(self.apply(f, [s], {}, x, None), x)
        if any(e.kind == "raise" for e in self.exits):
            v = _raw("raising", v)
        self.exits = ex
        return lam(s, v)

    def b_len(self, args, kw, st, node):
        v = args[0]
        if v.op == "itr":
            return length(self.fz(self.toseq(v, st), st))
        if v.op == "ite":
            return self.branch(cond_atom(v.args[0]), st, lambda x: self.b_len([v.args[1]], kw, x, node), lambda x: self.b_len([v.args[2]], kw, x, node))
        u = self.user(v, st)
        if u is not None:
            r = self.dunder(v, u[0], "__len__", [], st, node)
            if r is not None:
                return r
            if u[1]:
                return length(self.fz(self.rattr(v, "data", st), st))
        return length(self.fz(v, st))

    def b_range(self, args, kw, st, node):
        a = [self.fz(x, st) for x in args]
        if len(a) == 1:
            a = [ZERO] + a
        if len(a) == 3:
            if a[2] is ONE:
                a = a[:2]
            elif is_const(a[2]) and cval(a[2]) == -1:
                # range(hi, lo, -1)
                return _raw("itr", "reversed", call("range", add(a[1], ONE), add(a[0], ONE)))
            else:
                return call("range3", *a)
        if all(is_const(x) for x in a) and cval(a[1]) - cval(a[0]) <= 12:
            return tup(*[const(i) for i in range(cval(a[0]), cval(a[1]))])
        return call("range", *a)

    def b_enumerate(self, args, kw, st, node):
        start = args[1] if len(args) > 1 else kw.get("start", ZERO)
        return _raw("itr", "enumerate", args[0], self.fz(start, st))

    def b_zip(self, args, kw, st, node):
        return _raw("itr", "zip", *args)

    def b_reversed(self, args, kw, st, node):
        return _raw("itr", "reversed", args[0])

    def b_iter(self, args, kw, st, node):
        return args[0]

    def b_map(self, args, kw, st, node):
        if len(args) == 2:
            return _raw("itr", "map", args[0], args[1])

    def b_filter(self, args, kw, st, node):
        return _raw("itr", "filter", args[0], args[1])

    def b_list(self, args, kw, st, node):
        if not args:
            return self.alloc(lst(), st)
        v = args[0]
        x = self.toseq(v, st)
        x = aslist(x) if x.op not in ("list",) else x
        return self.alloc(x, st)

    def b_tuple(self, args, kw, st, node):
        if not args:
            return tup()
        return astuple(self.toseq(args[0], st))

    def b_set(self, args, kw, st, node):
        if not args:
            return self.alloc(setof(lst()), st)
        v = args[0]
        if v.op == "itr":
            return self.alloc(setof(self.fz(self.toseq(v, st), st)), st)
        c = self.fz(v, st)
        x = ty(c)
        if x and x[0] in ("set",):
            return self.alloc(c, st)
        if x and x[0] == "dict":
            return self.alloc(setof(keys(c)), st)
        return self.alloc(lift(lambda c: setof(seq_of(c)), c), st)

    b_frozenset = b_set

    def b_dict(self, args, kw, st, node):
        d = dictof(lst())
        if args:
            v = args[0]
            if v.op == "itr":
                d = dictof(self.fz(self.toseq(v, st), st))
            else:
                c = self.fz(v, st)
                x = ty(c)
                if is_seq(c):
                    d = dictof(c)
                else:
                    d = c if (self.is_lv(v) is False or True) else c
                    if self.is_lv(v):
                        cc = self.content(v, st)
                        if cc.op == "dictof":
                            d = cc
        for k in sorted(x for x in kw if x != "**"):
            d = store(d, const(k), self.pv(kw[k], st))
        if "**" in kw:
            x = self.fz(kw["**"], st)
            d = dictupd(d, self.pairs(x)) if d is not dictof(lst()) else x
        return self.alloc(d, st)

    b_collections_OrderedDict = b_dict

    def b_collections_defaultdict(self, args, kw, st, node):
        r = self.alloc(dictof(lst()), st)
        if args and args[0].op == "glob":
            f = {"set": setof(lst()), "list": lst(), "dict": dictof(lst()), "int": ZERO}.get(args[0].args[0])
            if f is not None:
                self.factories[r] = f
        elif args and args[0].op == "pyfn":
            x = st.copy()
            self.factories[r] = self.fz(self.apply(args[0], [], {}, x, node), x)
        return r

    def b_collections_deque(self, args, kw, st, node):
        return self.b_list(args, kw, st, node)

    def b_itertools_count(self, args, kw, st, node):
        start = self.fz(args[0], st) if args else ZERO
        r = self.alloc(start, st)
        self.factories[r] = None
        return _raw("counter", r)

    def b_next(self, args, kw, st, node):
        v = args[0]
        if v.op == "counter":
            x = self.content(v.args[0], st)
            self.update(v.args[0], lambda c: add(c, ONE), st, node)
            return x
        s = self.toseq(v, st)
        r = idx(s, ZERO)
        if len(args) > 1:
            return ite(truthy(self.fz(s, st)), r, args[1])
        if self.implicit and "StopIteration" in set().union(*self.implicit):
            g = not_(truthy(self.fz(s, st)))
            if g is not FALSE:
                self.exits.append(Exit("raise", and_(st.alive, g), _raw("exc", "StopIteration"), st.copy(), node))
                st.alive = and_(st.alive, not_(g))
        return r

    def b_unicodedata_lookup(self, args, kw, st, node):
        t = call("unicodedata.lookup", *self.fargs(args, {}, st))
        if self.implicit and len(t.args) == 2 and set().union(*self.implicit) & {"KeyError", "LookupError", "Exception", "BaseException"}:
            g = not_(truthy(call("name of a character", t.args[1])))
            self.exits.append(Exit("raise", and_(st.alive, g), _raw("exc", "KeyError"), st.copy(), node))
            st.alive = and_(st.alive, not_(g))
        return t

    def b_itertools_chain(self, args, kw, st, node):
        return self.alloc(cat(*[self.toseq(a, st) for a in args]), st)

    def b_itertools_chain_from_iterable(self, args, kw, st, node):
        s = self.source(args[0], st)
        if s[0] == "lit":
            return self.alloc(cat(*[self.toseq(a, st) for a in s[1]]), st)
        i = fresh_ix()
        return self.alloc(flat(s[1], i, self.fz(self.toseq(s[2](i, st), st), st)), st)

    def b_itertools_combinations(self, args, kw, st, node):
        q = self.fz(self.toseq(args[0], st), st)
        k = self.fz(args[1], st)
        if is_const(k) and cval(k) == 2:
            i, j = fresh_ix(), fresh_ix()
            n = length(q)
            inner = flat(sub(sub(n, i), ONE), j, lst(tup(idx(q, i), idx(q, add(add(i, j), ONE)))))
            return self.alloc(flat(sub(n, ONE), i, inner), st)
        return call("itertools.combinations", q, k)

    def b_any(self, args, kw, st, node):
        return self.quant(args[0], st, True)

    def b_all(self, args, kw, st, node):
        return self.quant(args[0], st, False)

    def quant(self, v, st, any_):
        s = self.fz(self.toseq(v, st), st)

        def f(s):
            if s.op == "list":
                cs = [truthy(x) for x in s.args]
                return or_(*cs) if any_ else and_(*cs)
            if s.op == "cat":
                cs = [f(x) for x in s.args]
                return or_(*cs) if any_ else and_(*cs)
            if s.op == "flat":
                i = fresh_ix()
                b = open1(s, i)
                p = lift(f, b)
                return exists(s.args[1], i, p) if any_ else forall(s.args[1], i, p)
            i = fresh_ix()
            p = truthy(idx(s, i))
            return exists(length(s), i, p) if any_ else forall(length(s), i, p)

        return lift(f, s)

    def b_sum(self, args, kw, st, node):
        s = self.fz(self.toseq(args[0], st), st)
        start = self.fz(args[1], st) if len(args) > 1 else self.fz(kw.get("start", ZERO), st)
        if is_seq(start):
            # sum of lists
            i = fresh_ix()
            return self.alloc(cat(start, flat(length(s), i, seq_of(idx(s, i)))), st)

        def f(s):
            if s.op == "list":
                r = ZERO
                for x in s.args:
                    r = add(r, x)
                return r
            if s.op == "cat":
                r = ZERO
                for x in s.args:
                    r = add(r, f(x))
                return r
            if s.op == "flat":
                i = fresh_ix()
                return sum_(s.args[1], i, lift(f, open1(s, i)))
            i = fresh_ix()
            return sum_(length(s), i, idx(s, i))

        return add(start, lift(f, s))

    def keyfn(self, kw, st, elemty=None):
        k = kw.get("key")
        if k is None or k is NONE:
            return NONE
        if k.op in ("pyfn", "bound", "getter", "igetter"):
            return self.lam1(k, st, elemty)
        if k.op == "glob" and k.args[0] == "len":
            s = fresh("ix", elemty)
            return lam(s, length(s))
        return self.fz(k, st)

    def elemty(self, s):
        x = ty(s)
        if x and x[0] in ("list", "set", "dict"):
            return x[1]
        return None

    def sortterm(self, seq, kw, st):
        s = self.fz(seq, st)
        k = self.keyfn(kw, st, self.elemty(s))
        rev = self.fz(kw.get("reverse", FALSE), st)
        rev = truthy(rev)
        # a negated key is the reverse (for ties, see the rules that use it)
        return lift(lambda s: mk_sorted(s, k, rev), s)

    def b_sorted(self, args, kw, st, node):
        return self.alloc(self.sortterm(self.toseq(args[0], st), kw, st), st)

    def b_max(self, args, kw, st, node, nm="max"):
        if len(args) == 1:
            s = self.fz(self.toseq(args[0], st), st)
            ex = []
            if "key" in kw:
                ex.append(self.keyfn(kw, st, self.elemty(s)))
            if "default" in kw:
                ex.append(_raw("kw", "default", self.fz(kw["default"], st)))
            r = call(nm, s, *ex)
        else:
            a, b = [self.fz(x, st) for x in args[:2]]
            for x, y in ((a, b), (b, a)):
                if nm == "min" and len(args) == 2 and x.op == "len" and is_const(y) and type(cval(y)) is int and cval(y) > 1 and self.lose("min", node):
                    return x
            if len(args) == 2:
                c = le(b, a) if nm == "max" else le(a, b)
                return ite(c, a, b)
            r = call(nm, lst(*[self.fz(x, st) for x in args]))
        if self.elemty(r.args[1]) == "int" if r.op == "call" else False:
            TYPES[r] = "int"
        return r

    def b_min(self, args, kw, st, node):
        return self.b_max(args, kw, st, node, "min")

    def b_str(self, args, kw, st, node):
        if not args:
            return EMPTY_STR
        return fmtv(self.fz(self.itseq(args[0], st), st))

    def b_bool(self, args, kw, st, node):
        return self.truth(args[0], st) if args else FALSE

    def b_int(self, args, kw, st, node):
        if len(args) == 1:
            v = self.fz(args[0], st)
            if ty(v) == "int":
                return v
            if ty(v) == "bool":
                return ite(truthy(v), ONE, ZERO)

    def b_isinstance(self, args, kw, st, node):
        v, c = self.fz(args[0], st), args[1]
        cs = list(c.args) if c.op == "tuple" else [c]
        r = FALSE
        for k in cs:
            r = or_(r, self.isinst(v, k))
        return r

    def isinst(self, v, k):
        def f(v):
            x = ty(v)
            if k.op == "glob" and x is not None and (isinstance(x, str) or x[0] != "opt"):
                n = x if isinstance(x, str) else x[0]
                if n == "none":
                    return FALSE
                if k.args[0] == n or (k.args[0] == "int" and n == "bool"):
                    return TRUE
                if k.args[0] in ("int", "str", "float", "list", "dict", "set", "tuple", "bool") and n in ("int", "str", "float", "list", "dict", "set", "tuple"):
                    return FALSE
            return cond_atom(_raw("truthy", _raw("call", "isinstance", v, k)))
        return lift(f, v)

    def b_type(self, args, kw, st, node):
        v = args[0]
        c = self.class_of(v, st)
        if c is not None:
            return _raw("typeof", self.fz(v, st)) if not self.is_lv(v) else _raw("cls", c.qual)
        return typeof(self.fz(v, st))

    def b_getattr(self, args, kw, st, node):
        n = self.fz(args[1], st)
        if is_const(n) and type(cval(n)) is str and len(args) == 2:
            return self.getattr_(args[0], cval(n), st, node)
        return call("getattr", *self.fargs(args, kw, st))

    def b_setattr(self, args, kw, st, node):
        n = self.fz(args[1], st)
        if is_const(n):
            self.setattr_(args[0], cval(n), args[2], st, node)
            return NONE

    def b_importlib_import_module(self, args, kw, st, node):
        if len(args) == 1 and is_const(args[0]) and type(cval(args[0])) is str:
            return self.modval(cval(args[0]))

    def b___import__(self, args, kw, st, node):
        if len(args) == 1 and is_const(args[0]) and type(cval(args[0])) is str:
            return self.modval(cval(args[0]).split(".")[0])

    def b_copy_deepcopy(self, args, kw, st, node):
        return self.alloc(self.fz(args[0], st), st)

    b_copy_copy = b_copy_deepcopy

    def b_heapq_heappush(self, args, kw, st, node):
        x = self.fz(args[1], st)
        self.update(args[0], lambda c: call("heappush", c, x), st, node)
        return NONE

    def b_heapq_heappop(self, args, kw, st, node):
        c = self.fz(args[0], st)
        self.update(args[0], lambda c: call("heaprest", c), st, node)
        return call("heapmin", c)

    def b_heapq_heapify(self, args, kw, st, node):
        self.update(args[0], lambda c: call("heapify", c), st, node)
        return NONE

    def b_functools_partial(self, args, kw, st, node):
        if not kw:
            return _raw("partial", *args)

    def b_operator_attrgetter(self, args, kw, st, node):
        if len(args) == 1 and is_const(args[0]):
            return _raw("getter", cval(args[0]))

    def b_operator_itemgetter(self, args, kw, st, node):
        if len(args) == 1:
            return _raw("igetter", args[0])

    def b_collections_abc(self, *a):
        return None

    def b_json_loads(self, args, kw, st, node):
        return self.alloc(call("json.loads", *self.fargs(args, kw, st)), st)

    def b_json_load(self, args, kw, st, node):
        x = self.meth(args[0], "read", [], {}, st, node)
        return self.alloc(call("json.loads", self.fz(x, st), *self.fargs(args[1:], kw, st)), st)

    def b_yaml_load(self, args, kw, st, node):
        l = args[1] if len(args) > 1 else kw.get("Loader")
        if l is not None and l.op == "glob" and str(l.args[0]) in ("yaml.SafeLoader", "yaml.CSafeLoader"):
            return self.b_yaml_safe_load(args[:1], {}, st, node)
        return None

    def b_yaml_safe_load(self, args, kw, st, node):
        return self.alloc(call("yaml.safe_load", *self.fargs(args, kw, st)), st)

    def b_itertools_groupby(self, args, kw, st, node):
        s = self.fz(self.toseq(args[0], st), st)
        k = args[1] if len(args) > 1 else kw.get("key")
        lamk = self.keyfn({"key": k}, st, self.elemty(s)) if k is not None else NONE
        t = call("itertools.groupby", s, lamk)
        TYPES[t] = ("list", ("tuple",))
        return t

    # --------------------------------------------------- container methods

    def meth(self, o, name, args, kw, st, node):
        if name in LOSSY and not args and self.tyof(o, st) in ("str", None):
            if self.lose(name, node):
                return o
        if name == "replace" and len(args) == 2 and not kw and all(is_const(x) and type(cval(x)) is str for x in args) and args[0] is not args[1] and not is_const(o):
            if self.lose(name, node):
                return o
        if name in ("strip", "lstrip", "rstrip") and not args and self.tyof(o, st) in ("str", None) and o.op in ("sym", "root", "attr", "idx", "key", "ix"):
            if self.lose(name, node):
                return o
        if o.op == "itr" and name in ("__iter__",):
            return o
        if o.op == "ite":
            c = cond_atom(o.args[0])
            return self.branch(c, st, lambda x: self.meth(o.args[1], name, args, kw, x, node), lambda x: self.meth(o.args[2], name, args, kw, x, node))
        t = self.tyof(o, st)
        if t and t[0] == "opt":
            t = t[1]
        cls = self.class_of(o, st)
        if cls is not None and t[1] not in NAMEDTUPLES:
            eb = [str(x).split(".")[-1] for x in self.p.ext_bases(cls) if isinstance(x, str)]
            if "UserDict" in eb or "UserList" in eb:
                d = self.rattr(o, "data", st)
                if self.p.find_member(cls, "__getitem__") and "UserDict" in eb and name in ("items", "values", "get"):
                    return self.std("dict_" + name, [o] + args, st, node)
                if name == "__iter__":
                    return self.iterable(o, st, node)
                if name == "__getitem__":
                    return self.ritem(d, args[0], st)
                return self.meth(d, name, args, kw, st, node)
        k = t[0] if t else None
        if isinstance(t, str):
            k = t
        f = getattr(self, "m_" + name, None)
        if f is not None:
            r = f(o, k, args, kw, st, node)
            if r is not None:
                return r
        if name in LOGM and (t == ("inst", "logging.Logger") or (o.op == "call" and "getLogger" in o.args[0])):
            self.trace(st, const("log"), const("warning" if name == "warn" else name))
            return NONE
        if name in ("write", "writelines", "writestr"):
            self.trace(st, const("write"), self.fz(o, st), *self.fargs(args, kw, st))
            return NONE
        self.calls.append(("." + name, node, self.fr.mod if self.stack else None, self.fr.name if self.stack else "?"))
        if name == "sub" and args and args[0].op in ("pyfn", "bound"):
            return self.resub(self.fz(o, st), args, kw, st, node)
        if name == "_replace" and t and t[0] == "inst" and t[1] in NAMEDTUPLES:
            c = self.fz(o, st)
            d = {x: attr(c, x) for x in NAMEDTUPLES[t[1]]}
            d.update({x: self.fz(v, st) for x, v in kw.items()})
            return obj(t[1], d)
        if name == "_asdict" and t and t[0] == "inst" and t[1] in NAMEDTUPLES:
            c = self.fz(o, st)
            return self.alloc(dictof(lst(*[tup(const(x), attr(c, x)) for x in NAMEDTUPLES[t[1]]])), st)
        r = method(name, self.fz(o, st), *self.fargs(args, kw, st))
        if t is None and self.is_lv(o) and name not in PUREM and o.op != "root":
            extra = self.fargs(args, kw, st)
            self.update(o, lambda c: call("after ." + name, c, *extra), st, node)
        if name == "load" and cls is not None and not (set(kw) & {"unknown", "partial", "many"}):
            shape = self.shape(cls)
            if shape is not None:
                SHAPES[r] = shape
        return r

    def shape(self, cls):
        """(keys that what a schema loads may have, keys it has)."""
        p = self.p
        if not any(str(b).startswith("marshmallow.") for b in p.ext_bases(cls)):
            return None
        may, must = set(), set()
        for c in p.mro(cls):
            if not isinstance(c, Cls):
                continue
            for s in c.node.body:
                for x in ast.walk(s):
                    if isinstance(x, ast.Constant) and type(x.value) is str:
                        may.add(x.value)
                    if isinstance(x, (ast.Name, ast.keyword)) and (x.id if isinstance(x, ast.Name) else x.arg) in ("unknown", "data_key", "attribute", "partial"):
                        return None
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Call):
                    may.add(s.targets[0].id)
                    if any(k.arg == "required" and isinstance(k.value, ast.Constant) and k.value.value is True for k in s.value.keywords):
                        must.add(s.targets[0].id)
        return may, must

    def m_get(self, o, k, args, kw, st, node):
        if k in ("str", "list", "set"):
            return None
        if k == "inst":
            return None
        kk = self.fz(args[0], st)
        d = args[1] if len(args) > 1 else kw.get("default", NONE)
        c = self.fz(o, st)
        i = in_(kk, c)
        if i is FALSE:
            return d
        f = self.factories.pop(o, None) if o in self.factories else None
        v = self.ritem(o, kk, st)
        if f is not None:
            self.factories[o] = f
        return ite(i, v, d)

    def m_items(self, o, k, args, kw, st, node):
        return _raw("itr", "items", o)

    def m_values(self, o, k, args, kw, st, node):
        return _raw("itr", "values", o)

    def m_keys(self, o, k, args, kw, st, node):
        return keys(self.fz(o, st))

    def m_setdefault(self, o, k, args, kw, st, node):
        kk = self.fz(args[0], st)
        d = self.pv(args[1], st) if len(args) > 1 else NONE
        dv = self.fz(d, st)
        c = self.fz(o, st)
        i = in_(kk, c)
        if i is not TRUE:
            s1, s2 = st.copy(), st.copy()
            self.update(o, lambda c: store(c, kk, dv), s2, node)
            self.join(st, i, s1, s2)
        return self.ritem(o, kk, st)

    def m_update(self, o, k, args, kw, st, node):
        if k == "set":
            for a in args:
                x = self.fz(self.toseq(a, st), st)
                self.update(o, lambda c: setupd(c, x), st, node)
            return NONE
        if k == "inst":
            return None
        for a in args:
            if a.op == "itr":
                p = self.fz(self.toseq(a, st), st)
            else:
                x = self.fz(a, st)
                p = x if is_seq(x) else self.pairs(x)
            self.update(o, lambda c: dictupd(c, p), st, node)
        for n in sorted(kw):
            v = self.pv(kw[n], st)
            if n == "**":
                x = self.pairs(self.fz(v, st))
                self.update(o, lambda c: dictupd(c, x), st, node)
            else:
                self.update(o, lambda c: store(c, const(n), v), st, node)
        return NONE

    def m_append(self, o, k, args, kw, st, node):
        v = self.pv(args[0], st)
        self.note(v, node)
        self.update(o, lambda c: cat(c, lst(v)), st, node)
        return NONE

    def m_extend(self, o, k, args, kw, st, node):
        x = self.toseq(args[0], st)
        self.update(o, lambda c: cat(c, x), st, node)
        return NONE

    def m_insert(self, o, k, args, kw, st, node):
        i = self.fz(args[0], st)
        v = self.pv(args[1], st)
        if i is ZERO:
            self.update(o, lambda c: cat(lst(v), c), st, node)
        else:
            self.update(o, lambda c: _raw("call", "insert", c, i, v), st, node)
        return NONE

    def m_add(self, o, k, args, kw, st, node):
        x = self.fz(args[0], st)
        self.update(o, lambda c: setadd(c, x), st, node)
        return NONE

    def m_discard(self, o, k, args, kw, st, node):
        x = self.fz(args[0], st)
        self.update(o, lambda c: _raw("call", "discard", c, x), st, node)
        return NONE

    def m_remove(self, o, k, args, kw, st, node):
        if not self.is_lv(o):
            return None
        x = self.fz(args[0], st)
        self.update(o, lambda c: _raw("call", "remove", c, x), st, node)
        return NONE

    def m_clear(self, o, k, args, kw, st, node):
        if not self.is_lv(o) or k == "inst":
            return None
        e = {"list": lst(), "dict": dictof(lst()), "set": setof(lst())}.get(k)
        self.update(o, lambda c: e if e is not None else _raw("call", "clear", c), st, node)
        return NONE

    def m_copy(self, o, k, args, kw, st, node):
        if k == "inst":
            return None
        return self.alloc(self.fz(o, st), st)

    def m_pop(self, o, k, args, kw, st, node):
        if not (o.lv and self.is_lv(o)):
            self.opaque_log.append(("pop of an untracked value", node))
            return None
        if args and (k == "dict" or (k not in ("list",) and len(args) == 2) or (k is None and not is_num(args[0]))):
            kk = self.fz(args[0], st)
            c = self.fz(o, st)
            v = self.fz(idx(c, kk), st)
            i = in_(kk, c)
            self.update(o, lambda c: ite(in_(kk, c), del_(c, kk), c) if len(args) > 1 else del_(c, kk), st, node)
            if len(args) > 1:
                return ite(i, v, args[1])
            return v
        c = self.content(o, st)
        i = self.fz(args[0], st) if args else const(-1)
        v = idx(c, i)
        if not self.is_lv(v):
            v = self.fz(v, st)
        self.update(o, lambda c: self.dellist(c, i), st, node)
        return v

    def m_popleft(self, o, k, args, kw, st, node):
        c = self.content(o, st)
        v = self.fz(idx(c, ZERO), st)
        self.update(o, lambda c: slice_(c, ONE, NONE), st, node)
        return v

    def m_appendleft(self, o, k, args, kw, st, node):
        v = self.pv(args[0], st)
        self.update(o, lambda c: cat(lst(v), c), st, node)
        return NONE

    def m_sort(self, o, k, args, kw, st, node):
        x = self.sortterm(self.fz(o, st), kw, st)
        self.update(o, lambda c: x, st, node)
        return NONE

    def m_reverse(self, o, k, args, kw, st, node):
        x = self.fz(self.toseq(_raw("itr", "reversed", o), st), st)
        self.update(o, lambda c: x, st, node)
        return NONE

    def m_union(self, o, k, args, kw, st, node):
        r = self.fz(o, st)
        for a in args:
            if a.op == "itr":
                a = self.toseq(a, st)
            if a.op == "star":
                q = self.fz(self.toseq(a.args[0], st), st)
                b = fresh_ix()
                a = flat(length(q), b, seq_of(idx(q, b)))
                r = setof(a) if r.op == "setof" and r.args[0].op == "list" and not r.args[0].args else setupd(r, a)
                continue
            r = setop("union", r, self.fz(a, st))
        return self.alloc(r, st)

    def m_intersection(self, o, k, args, kw, st, node):
        r = self.fz(o, st)
        for a in args:
            r = setop("intersection", r, self.fz(self.itseq(a, st), st))
        return r

    def m_difference(self, o, k, args, kw, st, node):
        return method("difference", self.fz(o, st), *self.fargs(args, kw, st))

    def m_issubset(self, o, k, args, kw, st, node):
        return not_(truthy(method("difference", self.fz(o, st), *self.fargs(args, kw, st))))

    def m_isdisjoint(self, o, k, args, kw, st, node):
        return not_(truthy(setop("intersection", self.fz(o, st), self.fz(args[0], st))))

    def m_join(self, o, k, args, kw, st, node):
        s = self.fz(o, st)
        if ty(s) == "str":
            return sjoin(s, self.fz(self.toseq(args[0], st), st))

    def m_format(self, o, k, args, kw, st, node):
        s = self.fz(o, st)
        if s.op != "c":
            return None
        import string
        out, auto = [], 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(cval(s)):
                if lit:
                    out.append(const(lit))
                if field is None:
                    continue
                if spec or conv not in (None, "s"):
                    return None
                if field == "":
                    v = args[auto]
                    auto += 1
                elif field.isdigit():
                    v = args[int(field)]
                elif field in kw:
                    v = kw[field]
                else:
                    return None
                out.append(fmtv(self.fz(v, st)))
        except (IndexError, ValueError):
            return None
        return strcat(*out)

    def m_has_key(self, *a):
        return None

    # ----------------------------------------------------- comprehensions

    def comp(self, e, st, add_):
        acc = self.alloc(None, st)
        return acc

    def e_ListComp(self, e, st):
        return self.run_comp(e, st, "list")

    def e_GeneratorExp(self, e, st):
        return self.run_comp(e, st, "list")

    def e_SetComp(self, e, st):
        r = self.run_comp(e, st, "list")
        return self.alloc(setof(self.fz(r, st)), st)

    def e_DictComp(self, e, st):
        r = self.run_comp(e, st, "dict")
        return self.alloc(dictof(self.fz(r, st)), st)

    def run_comp(self, e, st, kind):
        acc = self.alloc(lst(), st)
        fr = Frame(self, self.fr.mod, self.fr.cls, self.fr.name)
        fr.node = None
        fr.closure = self.fr.id
        fr.selfname = self.fr.selfname
        self.frame_parent[fr.id] = self.fr.id
        st.frames[fr.id] = {}
        if self.fr.selfname and self.fr.selfname in st.frames[self.fr.id]:
            st.frames[fr.id][self.fr.selfname] = st.frames[self.fr.id][self.fr.selfname]
        first_it = self.ev(e.generators[0].iter, st)
        self.stack.append(fr)
        try:
            def gen(i, x):
                if i == len(e.generators):
                    if kind == "dict":
                        k = self.fz(self.ev(e.key, x), x)
                        v = tup(k, self.pv(self.ev(e.value, x), x))
                    else:
                        v = self.pv(self.ev(e.elt, x), x)
                    self.note(v, e)
                    self.update(acc, lambda c: cat(c, lst(v)), x, e)
                    return
                g = e.generators[i]
                it = first_it if i == 0 else self.ev(g.iter, x)

                def body(v, y):
                    self.assign(g.target, v, y)

                    def conds(j, z):
                        if j == len(g.ifs):
                            gen(i + 1, z)
                            return
                        c = self.cond(g.ifs[j], z)
                        self.branch(c, z, lambda w: conds(j + 1, w), lambda w: None)

                    conds(0, y)

                self.for_(it, body, x, g)

            gen(0, st)
        finally:
            self.stack.pop()
        st.frames.pop(fr.id, None)
        return acc

    # ------------------------------------------------------------ entry

    frame_parent = {}

    def begin(self):
        self.writes = {}
        self.exits = []
        self.stack = []
        self.implicit = []
        self.opaque_log = []
        self.calls = []
        self.steps = 0
        self.inlined = set()

    def run(self, node, mod, cls, env, heap=None, name=None):
        """Evaluate a function on the given values; returns a Result."""
        st = State()
        if heap:
            st.heap.update(heap)
        self.begin()
        base = Frame(self, mod, None, "<entry>")
        st.frames[base.id] = {}
        self.stack.append(base)
        self.nostub = node
        v = self.call_def(node, mod, cls, [], dict(env), st, None, node)
        ra = [e for e in self.exits if e.kind == "raise"]
        return Result(self, v, st, ra)


class Frame:
    _n = [0]

    def __init__(self, ev, mod, cls, name):
        Frame._n[0] += 1
        self.id = Frame._n[0]
        self.mod, self.cls, self.name = mod, cls, name
        self.globals, self.nonlocals = set(), set()
        self.closure = None
        self.selfname = None
        self.node = None


class Result:
    def __init__(self, ev, value, st, raises):
        self.ev, self.st, self.raises = ev, st, raises
        self.raw = value
        self.value = ev.fz(value, st)
        self.exc = NONE
        for e in reversed(raises):
            self.exc = ite(e.guard, ev.fz(e.value, e.state), self.exc)
        self.opaque = list(ev.opaque_log)
        self.calls = list(ev.calls)
        self.inlined = set(ev.inlined)

    def content(self, r):
        return self.ev.fz(r, self.st)

    def trace(self):
        return self.ev.fz(self.st.heap.get(TRACE, lst()), self.st)


SKIP = _raw("skip")


def kind_isnot(t, leaf):
    if t.op == "ite":
        return ite(cond_atom(t.args[0]), kind_isnot(t.args[1], leaf), kind_isnot(t.args[2], leaf))
    return FALSE if t is leaf else TRUE


def setop(name, a, b):
    if name == "union":
        if a.op == "setof" and a.args[0].op == "list" and not a.args[0].args:
            return setof(seq_of(b)) if not (ty(b) and ty(b)[0] == "set") else b
        return setupd(a, seq_of(b)) if a.op == "setof" or ty(a) and ty(a)[0] == "set" else _raw("m", "union", a, b)
    x, y = a, b
    if y.id < x.id:
        x, y = y, x
    return _raw("m", name, x, y)


def exc_of(v):
    def f(v):
        if v.op == "exc":
            return _raw("exc", v.args[0])
        if v.op == "cls":
            return _raw("exc", v.args[0])
        if v.op == "obj":
            return _raw("exc", v.args[0])
        if v.op == "glob":
            return _raw("exc", v.args[0])
        if v.op == "call":
            return _raw("exc", v.args[0])
        return _raw("exc", "unknown")
    return lift(f, v)


def is_num(v):
    return is_const(v) and type(cval(v)) is int or ty(v) == "int"


def _mentions(v, slot):
    seen = set()
    stack = [v]
    while stack:
        t = stack.pop()
        if t is slot:
            return True
        if t in seen or not t.lv:
            continue
        seen.add(t)
        stack += [a for a in t.args if type(a) is T]
    return False


def _is_gen(node):
    for n in _walk_own(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def _walk_own(node):
    stack = list(ast.iter_child_nodes(node))
    while stack:
        n = stack.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            stack += list(ast.iter_child_nodes(n))


def closure_free(v):
    return not any(x.op == "pyfn" for x in _sub(v))


def _sub(v):
    seen, stack = set(), [v]
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        seen.add(t)
        yield t
        stack += [a for a in t.args if type(a) is T]
