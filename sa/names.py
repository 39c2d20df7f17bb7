"""What names in the source stand for, and constants they fold to."""
import ast
import builtins

from .program import Cls


def parents(n):
    while True:
        n = getattr(n, "_parent", None)
        if n is None:
            return
        yield n


FUNC = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)


def enclosing(n):
    """Functions around a node, innermost first."""
    return [p for p in parents(n) if isinstance(p, FUNC)]


def params(f):
    a = f.args
    out = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    out += [x.arg for x in (a.vararg, a.kwarg) if x]
    return out


def own(f):
    """Nodes of a function, without those of functions in it."""
    body = f.body if isinstance(f.body, list) else [f.body]
    st = list(body)
    while st:
        n = st.pop()
        yield n
        if isinstance(n, FUNC + (ast.ClassDef,)):
            continue
        st.extend(ast.iter_child_nodes(n))


def bindings(f):
    """{name: [binding]} of a function: ('param',), ('expr', node), ('import', dotted), ('def', node), ('other', node)."""
    c = getattr(f, "_bind", None)
    if c is not None:
        return c
    out = {}

    def put(n, b):
        out.setdefault(n, []).append(b)

    for p in params(f):
        put(p, ("param", p))
    mod = f._mod
    for n in own(f):
        if isinstance(n, ast.Import):
            for a in n.names:
                put(a.asname or a.name.split(".")[0], ("import", a.name if a.asname else a.name.split(".")[0]))
        elif isinstance(n, ast.ImportFrom):
            base = n.module or ""
            if n.level:
                parts = mod.name.split(".")
                if not mod.path.endswith("__init__.py"):
                    parts = parts[:-1]
                parts = parts[: len(parts) - (n.level - 1)]
                base = ".".join(parts + ([n.module] if n.module else []))
            for a in n.names:
                put(a.asname or a.name, ("from", base, a.name))
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    put(t.id, ("expr", n.value))
                else:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            put(x.id, ("other", n))
        elif isinstance(n, ast.NamedExpr):
            put(n.target.id, ("expr", n.value))
        elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
            put(n.target.id, ("expr", n.value))
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            put(n.name, ("def", n))
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            p = n._parent
            if not (isinstance(p, (ast.Assign, ast.AnnAssign)) or isinstance(p, ast.NamedExpr)):
                put(n.id, ("other", p))
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            for x in n.names:
                put(x, ("global",) if isinstance(n, ast.Global) else ("nonlocal",))
        elif isinstance(n, ast.ExceptHandler) and n.name:
            put(n.name, ("other", n))
    f._bind = out
    return out


class Names:
    def __init__(self, prog):
        self.p = prog

    def find(self, n, name):
        """(binding, function) of a name used at n; function None: of the module."""
        for f in enclosing(n):
            b = bindings(f).get(name)
            if b is None:
                continue
            if ("global",) in b:
                return None, None
            if ("nonlocal",) in b:
                continue
            if len(b) == 1:
                return b[0], f
            return ("other", b), f
        for p in parents(n):
            if isinstance(p, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for g in p.generators:
                    if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(g.target)):
                        return ("other", g), None
        return None, None

    def resolve(self, e, depth=0):
        """Dotted names an expression may stand for: a set of ('ext', dotted), ('def', node, mod),
        ('cls', Cls), ('mod', name) or ('param', name, function); None where it is not known."""
        if depth > 8:
            return {None}
        d = depth + 1
        if isinstance(e, ast.Name):
            b, f = self.find(e, e.id)
            if b is None:
                r = self.p.lookup(e._mod.name, e.id)
                if r is None:
                    return {("ext", e.id)} if hasattr(builtins, e.id) else {None}
                return self.of(r, d)
            if b[0] == "import":
                return {("mod", b[1]) if b[1] in self.p.mods else ("ext", b[1])}
            if b[0] == "from":
                if b[1] in self.p.mods:
                    r = self.p.lookup(b[1], b[2])
                    return self.of(r, d) if r else {("mod", b[1] + "." + b[2])} if b[1] + "." + b[2] in self.p.mods else {None}
                return {("ext", b[1] + "." + b[2])}
            if b[0] == "expr":
                return self.resolve(b[1], d)
            if b[0] == "def" and isinstance(b[1], ast.FunctionDef):
                return {("def", b[1], b[1]._mod)}
            if b[0] == "param":
                return {("param", b[1], f)}
            return {None}
        if isinstance(e, ast.Attribute):
            out = set()
            for b in self.resolve(e.value, d):
                if b is None:
                    out.add(None)
                elif b[0] == "ext":
                    out.add(("ext", b[1] + "." + e.attr))
                elif b[0] == "mod":
                    r = self.p.lookup(b[1], e.attr)
                    out |= self.of(r, d) if r else {("ext", b[1] + "." + e.attr)}
                else:
                    out.add(None)
            return out
        if isinstance(e, ast.IfExp):
            return self.resolve(e.body, d) | self.resolve(e.orelse, d)
        if isinstance(e, ast.BoolOp):
            return set().union(*[self.resolve(v, d) for v in e.values])
        if isinstance(e, ast.Call):
            fs = self.resolve(e.func, d)
            if fs == {("ext", "getattr")} and len(e.args) >= 2:
                k = self.fold(e.args[1])
                if isinstance(k, str):
                    out = set()
                    for b in self.resolve(e.args[0], d):
                        out.add(("ext", b[1] + "." + k) if b and b[0] == "ext" else None)
                    for a in e.args[2:]:
                        out |= self.resolve(a, d)
                    return out
            if fs in ({("ext", "importlib.import_module")}, {("ext", "__import__")}) and e.args:
                k = self.fold(e.args[0])
                if isinstance(k, str):
                    return {("mod", k) if k in self.p.mods else ("ext", k)}
            if fs == {("ext", "functools.partial")} and e.args:
                return self.resolve(e.args[0], d)
            return {None}
        return {None}

    def of(self, r, d):
        if r is None:
            return {None}
        if r[0] == "expr":
            return self.resolve(r[1], d)
        if r[0] == "def":
            return {("def", r[1], r[2])}
        if r[0] in ("ext", "mod", "cls"):
            return {r}
        return {None}

    UNKNOWN = object()

    def fold(self, e, depth=0):
        """The constant an expression is, or UNKNOWN."""
        U = self.UNKNOWN
        if depth > 8 or e is None:
            return U
        d = depth + 1
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            b, f = self.find(e, e.id)
            if b is None:
                r = self.p.lookup(e._mod.name, e.id)
                if r and r[0] == "expr":
                    n = r[2].assigns.get(e.id)
                    if n is not None and len(n) > 1:
                        return U
                    return self.fold(r[1], d)
                return U
            return self.fold(b[1], d) if b[0] == "expr" else U
        if isinstance(e, ast.Attribute):
            for b in self.resolve(e.value):
                if b and b[0] == "mod":
                    r = self.p.lookup(b[1], e.attr)
                    return self.fold(r[1], d) if r and r[0] == "expr" else U
                if b and b[0] == "cls":
                    m = self.p.find_member(b[1], e.attr)
                    return self.fold(m[1], d) if m and isinstance(m[1], ast.expr) else U
            return U
        if isinstance(e, (ast.Tuple, ast.List)):
            v = [self.fold(x, d) for x in e.elts]
            return U if U in v else tuple(v) if isinstance(e, ast.Tuple) else v
        if isinstance(e, ast.JoinedStr):
            out = ""
            for v in e.values:
                x = self.fold(v.value if isinstance(v, ast.FormattedValue) else v, d)
                if x is U or isinstance(v, ast.FormattedValue) and (v.format_spec or v.conversion not in (-1, 115)):
                    return U
                out += str(x)
            return out
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub, ast.Mult)):
            a, b = self.fold(e.left, d), self.fold(e.right, d)
            if a is U or b is U:
                return U
            try:
                return a + b if isinstance(e.op, ast.Add) else a - b if isinstance(e.op, ast.Sub) else a * b
            except TypeError:
                return U
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            v = self.fold(e.operand, d)
            return -v if isinstance(v, (int, float)) else U
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("list", "tuple") and len(e.args) == 1:
            v = self.fold(e.args[0], d)
            return U if v is U else list(v) if e.func.id == "list" else tuple(v)
        return U

    def calls(self, mods=None):
        """Every call in the package: (node, names it may be of)."""
        for k in sorted(self.p.mods):
            if k.startswith("spec_") or mods and k not in mods:
                continue
            for n in ast.walk(self.p.mods[k].tree):
                if isinstance(n, ast.Call):
                    yield n, self.resolve(n.func)


def arg(call, i, name):
    """An argument by position or name; None if not given; '*' if not known."""
    for k in call.keywords:
        if k.arg == name:
            return k.value
    if any(k.arg is None for k in call.keywords) or any(isinstance(a, ast.Starred) for a in call.args):
        return "*"
    return call.args[i] if i is not None and i < len(call.args) else None


def in_function(n):
    """Qualified name of the function a node is in."""
    out = []
    for p in parents(n):
        if isinstance(p, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            out.append(p.name)
    return ".".join(reversed(out)) or "<module>"
