"""What the marshmallow schemas of the package declare, from their syntax trees."""
import ast

from .terms import *
from .program import Cls

KINDS = dict(Str="String", String="String", Int="Integer", Integer="Integer", Bool="Boolean", Boolean="Boolean", Float="Float", Number="Float",
             Dict="Dict", Mapping="Dict", List="List", Nested="Nested", Tuple="Tuple", Raw="Raw", Field="Raw")
OPTIONS = ("required", "allow_none", "load_default", "missing", "dump_default", "default", "data_key", "attribute", "validate", "load_only", "dump_only",
           "error_messages", "metadata", "keys", "values", "many", "only", "exclude", "unknown", "partial", "strict")
# positional parameters of fields and validators
POSITION = dict(Dict=("keys", "values"), List=("cls_or_instance",), Tuple=("tuple_fields",), Nested=("nested",), Length=("min", "max"), Regexp=("regex", "flags"), Range=("min", "max"))


class Unknown(Exception):
    """Written in a way that is not understood."""


def call_parts(t):
    """(name, {parameter: term}) of a call of something of marshmallow."""
    if t.op == "glob" and t.args[0].startswith("marshmallow."):
        return t.args[0], {}
    if t.op != "call" or type(t.args[0]) is not str or not t.args[0].startswith("marshmallow."):
        raise Unknown(repr(t)[:120])
    kw, pos = {}, []
    for a in t.args[1:]:
        if a.op == "kw":
            if a.args[0] == "**":
                raise Unknown("keyword arguments")
            kw[a.args[0]] = a.args[1]
        else:
            pos.append(a)
    names = POSITION.get(t.args[0].split(".")[-1], ())
    if len(pos) > len(names):
        raise Unknown("positional arguments")
    kw.update(zip(names, pos))
    return t.args[0], kw


class Field:
    def __init__(self, S, term, where):
        self.S, self.term, self.where = S, term, where
        self.name, self.kw = call_parts(term)
        if not self.name.startswith("marshmallow.fields."):
            raise Unknown(self.name)
        self.kind = KINDS.get(self.name.split(".")[-1])
        if self.kind is None:
            raise Unknown(self.name)

    def const(self, k, default):
        """Value of a constant option."""
        v = self.kw.get(k)
        if v is None:
            return default
        if not is_const(v):
            raise Unknown(k)
        return cval(v)

    @property
    def required(self):
        return bool(self.const("required", False))

    @property
    def has_default(self):
        return any(k in self.kw for k in ("load_default", "missing"))

    @property
    def allow_none(self):
        v = self.const("allow_none", None)
        if v is None:
            for k in ("load_default", "missing"):
                if k in self.kw:
                    return self.kw[k] is NONE
            return False
        return bool(v)

    def sub(self, k):
        t = self.kw.get(k)
        if t is None or t is NONE:
            return None
        return Field(self.S, t, self.where)

    @property
    def inner(self):
        return self.sub("cls_or_instance")

    def nested(self):
        """The class a Nested field is about."""
        t = self.kw.get("nested")
        if t is None:
            raise Unknown("nested")
        if t.op == "cls":
            return self.S.m.p.classes[t.args[0]]
        if is_const(t) and type(cval(t)) is str:
            for q, c in self.S.m.p.classes.items():
                if q == cval(t) or q.endswith("." + cval(t)):
                    return c
        raise Unknown("nested")

    def validators(self):
        """[(name, {parameter: term})]; None in place of what is not understood."""
        t = self.kw.get("validate")
        return validators(t)


def validators(t):
    if t is None or t is NONE:
        return []
    if t.op in ("list", "tuple"):
        return [v for a in t.args for v in validators(a)]
    try:
        n, kw = call_parts(t)
    except Unknown:
        return [None]
    n = n.split(".")[-1]
    if n == "And":
        return [None]
    if n not in ("Length", "Regexp", "Range"):
        return [None]
    return [(n, kw)]


def min_length(field):
    """1 if the empty value is certainly refused, 0 if certainly not, else None."""
    maybe = False
    for v in field.validators():
        if v is None:
            maybe = True
        elif v[0] == "Length":
            for k in ("min", "equal"):
                x = v[1].get(k)
                if x is None or x is NONE:
                    continue
                if not is_const(x):
                    maybe = True
                elif cval(x) >= 1:
                    return 1
        elif v[0] == "Regexp":
            maybe = True
    return None if maybe else 0


class Schemas:
    def __init__(self, x):
        self.x, self.m = x, x.m
        self._value = {}

    def value(self, mod, expr):
        """What an expression of a module or class body denotes."""
        k = id(expr)
        if k not in self._value:
            m = self.m
            tree = ast.parse("def driver():\n    return None\n").body[0]
            tree.body[0].value = expr
            fn = (tree, mod, None)
            tree._mod = mod
            tree.body[0]._mod = mod
            tree._parent = mod.tree
            tree.body[0]._parent = tree
            keep = getattr(expr, "_parent", None)
            try:
                r = m.ev.run(tree, mod, None, {})
                self._value[k] = r.value
            finally:
                expr._parent = keep
        return self._value[k]

    def entry(self, cls, name):
        """(class, expression) that declares a name."""
        for c in self.m.p.mro(cls):
            if isinstance(c, Cls) and name in c.members:
                return c, c.members[name]
        return None

    def meta(self, cls):
        """{option: value} of the class's Meta."""
        e = self.entry(cls, "Meta")
        if e is None:
            return {}
        c, n = e
        if not isinstance(n, ast.ClassDef):
            raise Unknown("Meta")
        out = {}
        for b in n.bases:
            if isinstance(b, ast.Attribute) and b.attr == "Meta":
                r = self.m.p.resolve_expr(c.mod.name, b.value)
                if r and r[0] == "cls":
                    out.update(self.meta(r[1]))
                    continue
            if isinstance(b, ast.Name) and b.id == "object":
                continue
            raise Unknown("bases of Meta")
        for s in n.body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                out[s.targets[0].id] = self.value(c.mod, s.value)
            elif isinstance(s, (ast.Pass, ast.Expr)):
                pass
            else:
                raise Unknown("Meta")
        return out

    def names(self, cls, option):
        t = self.meta(cls).get(option)
        if t is None:
            return None
        if t.op in ("tuple", "list") and all(is_const(a) for a in t.args):
            return [cval(a) for a in t.args]
        raise Unknown("Meta." + option)

    def where(self, cls, name=None):
        import os
        e = self.entry(cls, name) if name else None
        c, line = (e[0], e[1].lineno) if e else (cls, cls.node.lineno)
        return "%s:%s %s%s" % (os.path.relpath(c.mod.path, self.x.repo), line, cls.name, "." + name if name else "")

    def field(self, cls, name):
        """The Field of that name, None if there certainly is none; raises Unknown."""
        for c in self.m.p.mro(cls):
            if not isinstance(c, Cls) and c != "marshmallow.Schema" and c != "object" and not (isinstance(c, str) and c.endswith("Schema") and c.startswith("marshmallow")):
                raise Unknown("base %s" % (c,))
        e = self.entry(cls, name)
        if e is None:
            if any(isinstance(s, (ast.For, ast.While, ast.If, ast.With)) for c in self.m.p.mro(cls) if isinstance(c, Cls) for s in c.node.body):
                raise Unknown("class body")
            if cls.node.decorator_list:
                raise Unknown("class decorator")
            return None
        f = self.names(cls, "fields")
        if f is not None and name not in f:
            a = self.names(cls, "additional") or ()
            if name not in a:
                return None
        for o in ("exclude",):
            if name in (self.names(cls, o) or ()):
                return None
        c, n = e
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            raise Unknown(name)
        return Field(self, self.value(c.mod, n), self.where(cls, name))

    def only_one_way(self, cls, name, f):
        """'load' or 'dump' if the field is left out of the other."""
        for o, way in (("load_only", "load"), ("dump_only", "dump")):
            if name in (self.names(cls, o) or ()) or f.const(o, False):
                return way
        return None


# ------------------------------------------------------------ types held

def refuses(f):
    """Whether validators of the field refuse some of what it is to hold."""
    out = "ok"
    for v in f.validators():
        if v is None or v[0] != "Length":
            out = "unknown"
            continue
        if any(x is not NONE and not (k == "min" and is_const(x) and cval(x) in (0,)) and k in ("min", "max", "equal") for k, x in v[1].items()):
            return "bad"
    return out


def fits(f, t, path, out, least=()):
    """Whether a field takes and gives back every value of a type. Problems are
    added to out: (path, 'bad' or 'unknown', why). least: paths of which
    nothing empty is held."""
    if f is None or f.kind == "Raw" and f.name.endswith(".Raw"):
        return
    try:
        r = refuses(f)
        if r == "bad" and path in least:
            r = "ok" if all(v is None or set(k for k, x in v[1].items() if x is not NONE) <= {"min"} and is_const(v[1].get("min", ONE)) and cval(v[1].get("min", ONE)) <= 1 for v in f.validators()) else "bad"
        if r != "ok":
            out.append((path, r, "validator"))
        k = t if isinstance(t, str) else t[0]
        if k == "any":
            if f.kind != "Raw":
                out.append((path, "bad", "values are not restricted, but the field is %s" % f.kind))
            return
        want = dict(str="String", int="Integer", bool="Boolean", float="Float", list="List", dict="Dict", nested="Nested", tuple="Tuple")[k]
        if f.kind != want:
            if k == "list" and f.kind == "Nested" and f.const("many", False):
                return fits_nested(f, t[1], path, out, least)
            out.append((path, "bad" if f.kind != "Raw" else "unknown", "%s for a value of type %s" % (f.kind, k)))
            return
        if k == "list":
            fits(f.inner, t[1], path + "[]", out, least)
        elif k == "dict":
            fits(f.sub("keys"), t[1], path + " keys", out, least)
            fits(f.sub("values"), t[2], path + " values", out, least)
        elif k == "nested":
            if f.const("many", False):
                out.append((path, "bad", "many for one"))
            else:
                fits_nested(f, t, path, out, least)
    except Unknown as e:
        out.append((path, "unknown", str(e)))


def fits_nested(f, t, path, out, least):
    c = f.nested()
    if not (isinstance(t, tuple) and t[0] == "nested"):
        out.append((path, "bad", "nested schema for a plain value"))
        return
    sel = {}
    for o in ("only", "exclude"):
        v = f.kw.get(o)
        if v is not None and v is not NONE:
            if v.op in ("tuple", "list") and all(is_const(a) for a in v.args):
                sel[o] = [cval(a) for a in v.args]
            elif is_const(v):
                sel[o] = [cval(v)]
            else:
                raise Unknown(o)
    fits_schema(f.S, c, t[1], path, out, least, sel)


def fits_schema(S, c, parts, path, out, least, sel={}):
    for n, (t, opt) in parts.items():
        p = path + "." + n if path else n
        w = S.where(c)
        try:
            g = S.field(c, n)
            if g is None or n in sel.get("exclude", ()) or "only" in sel and n not in sel["only"]:
                out.append((p, "bad", "there is no such field", w))
                continue
            w = g.where
            way = S.only_one_way(c, n, g)
            if way:
                out.append((p, "bad", "the field only serves to %s" % way, w))
            if g.const("data_key", None) not in (None, n) or g.const("attribute", None) not in (None, n):
                out.append((p, "unknown", "renamed", w))
            if "none" in opt and not g.allow_none:
                out.append((p, "none", "None is refused", w))
            k = len(out)
            fits(g, t, p, out, least)
            for i in range(k, len(out)):
                if len(out[i]) == 3:
                    out[i] = out[i] + (w,)
        except Unknown as e:
            out.append((p, "unknown", str(e), w))
