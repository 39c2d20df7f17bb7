"""Loads the package source and resolves names, classes and functions."""
import ast
import hashlib
import os

PKG = "graphtransliterator"


class Cls:
    def __init__(self, mod, node, qual):
        self.mod, self.node, self.qual, self.name = mod, node, qual, node.name
        self.members = {}
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                decs = [d.attr for d in s.decorator_list if isinstance(d, ast.Attribute)]
                if "setter" in decs:
                    self.members[s.name + ".setter"] = s
                else:
                    self.members[s.name] = s
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.members[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.members[s.target.id] = s.value
            elif isinstance(s, ast.ClassDef):
                self.members[s.name] = s


class Mod:
    def __init__(self, name, path, src):
        self.name, self.path, self.src = name, path, src
        self.tree = ast.parse(src, path)
        self.defs = {}  # name -> last binding: node | ('import', dotted) | ('from', module, name)
        self.assigns = {}
        for n in ast.walk(self.tree):
            n._mod = self
        for n in ast.walk(self.tree):
            for ch in ast.iter_child_nodes(n):
                ch._parent = n
        self.collect(self.tree.body)

    def collect(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                self.defs[s.name] = s
            elif isinstance(s, ast.Import):
                for a in s.names:
                    self.defs[a.asname or a.name.split(".")[0]] = ("import", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ""
                if s.level:
                    parts = self.name.split(".")
                    if not self.path.endswith("__init__.py"):
                        parts = parts[:-1]
                    parts = parts[: len(parts) - (s.level - 1)]
                    base = ".".join(parts + ([s.module] if s.module else []))
                for a in s.names:
                    self.defs[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.defs[t.id] = s.value
                        self.assigns.setdefault(t.id, []).append(s.value)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.defs[s.target.id] = s.value
            elif isinstance(s, (ast.If, ast.Try, ast.With)):
                for f in ("body", "orelse", "finalbody"):
                    self.collect(getattr(s, f, []))
                for h in getattr(s, "handlers", []):
                    self.collect(h.body)


class Program:
    def __init__(self, repo, extra=None):
        self.repo = repo
        self.mods = {}
        self.classes = {}
        pkg = os.path.join(repo, PKG)
        if not os.path.isdir(pkg):
            raise FileNotFoundError(pkg)
        for dirpath, dirs, files in os.walk(pkg):
            dirs[:] = sorted(d for d in dirs if d not in ("__pycache__", "tests"))
            for f in sorted(files):
                if f.endswith(".py"):
                    p = os.path.join(dirpath, f)
                    rel = os.path.relpath(p, repo)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[: -len(".__init__")]
                    self.add(rel, p)
        for name, path in (extra or {}).items():
            self.add(name, path)

    def add(self, name, path):
        with open(path, encoding="utf-8") as f:
            src = f.read()
        m = Mod(name, path, src)
        self.mods[name] = m
        for n in m.tree.body:
            self._classes(m, n)
        return m

    def _classes(self, m, n):
        if isinstance(n, ast.ClassDef):
            q = m.name + "." + n.name
            self.classes[q] = Cls(m, n, q)
        elif isinstance(n, (ast.If, ast.Try)):
            for s in n.body:
                self._classes(m, s)

    def digest(self):
        h = hashlib.sha256()
        for k in sorted(self.mods):
            h.update(k.encode() + b"\0" + self.mods[k].src.encode() + b"\0")
        return h.hexdigest()

    # ------------------------------------------------------------ names

    def lookup(self, modname, name, seen=()):
        """('def', node, mod) | ('cls', Cls) | ('mod', name) | ('ext', dotted) | ('expr', node, mod) | None"""
        m = self.mods.get(modname)
        if m is None:
            return ("ext", modname + "." + name)
        d = m.defs.get(name)
        if d is None:
            sub = modname + "." + name
            if sub in self.mods:
                return ("mod", sub)
            return None
        if isinstance(d, tuple):
            if d[0] == "import":
                return ("mod", d[1]) if d[1] in self.mods else ("ext", d[1])
            if (modname, name) in seen:
                return None
            if d[1] in self.mods:
                r = self.lookup(d[1], d[2], seen + ((modname, name),))
                if r is None and d[1] + "." + d[2] in self.mods:
                    return ("mod", d[1] + "." + d[2])
                return r
            return ("ext", (d[1] + "." if d[1] else "") + d[2])
        if isinstance(d, ast.ClassDef):
            return ("cls", self.classes[modname + "." + name])
        if isinstance(d, (ast.FunctionDef, ast.AsyncFunctionDef)):
            return ("def", d, m)
        return ("expr", d, m)

    def bases(self, cls):
        """Direct bases: Cls objects or dotted external names."""
        out = []
        for b in cls.node.bases:
            r = self.resolve_expr(cls.mod.name, b)
            if r and r[0] == "cls":
                out.append(r[1])
            elif r and r[0] == "ext":
                out.append(r[1])
            elif isinstance(b, ast.Call):
                f = self.resolve_expr(cls.mod.name, b.func)
                out.append(("call", f[1] if f and f[0] == "ext" else None, b))
            elif isinstance(b, ast.Name):
                out.append(b.id)
        return out

    def resolve_expr(self, modname, e):
        if isinstance(e, ast.Name):
            r = self.lookup(modname, e.id)
            return r or ("ext", e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(modname, e.value)
            if b is None:
                return None
            if b[0] == "mod":
                return self.lookup(b[1], e.attr) or ("ext", b[1] + "." + e.attr)
            if b[0] == "ext":
                return ("ext", b[1] + "." + e.attr)
        return None

    def mro(self, cls):
        """Linearised classes (C3 where it matters: depth first, last duplicate kept)."""
        out = []

        def walk(c):
            out.append(c)
            if isinstance(c, Cls):
                for b in self.bases(c):
                    walk(b)

        walk(cls)
        res = []
        for i, c in enumerate(out):
            if isinstance(c, Cls) and any(c is x for x in out[i + 1:]):
                continue
            res.append(c)
        return res

    def find_member(self, cls, name, after=None):
        skip = after is not None
        for c in self.mro(cls):
            if skip:
                if c is after:
                    skip = False
                continue
            if isinstance(c, Cls) and name in c.members:
                return c, c.members[name]
        return None

    def namedtuple_fields(self, cls):
        for c in self.mro(cls):
            if isinstance(c, tuple) and c[0] == "call" and c[1] in ("collections.namedtuple", "typing.NamedTuple"):
                a = c[2].args
                if len(a) >= 2:
                    if isinstance(a[1], (ast.List, ast.Tuple)):
                        out = []
                        for x in a[1].elts:
                            if isinstance(x, ast.Constant):
                                out.append(x.value)
                            elif isinstance(x, ast.Tuple) and isinstance(x.elts[0], ast.Constant):
                                out.append(x.elts[0].value)
                        return out
                    if isinstance(a[1], ast.Constant) and isinstance(a[1].value, str):
                        return a[1].value.replace(",", " ").split()
            if c == "typing.NamedTuple":
                k = cls.node.body
                return [s.target.id for s in k if isinstance(s, ast.AnnAssign)]
        return None

    def ext_bases(self, cls):
        return [c for c in self.mro(cls) if not isinstance(c, Cls)]

    def is_subclass(self, cls, of):
        """of: Cls or dotted name (suffix match for external)."""
        for c in self.mro(cls):
            if c is of:
                return True
            if isinstance(of, str) and isinstance(c, str) and (c == of or c.endswith("." + of)):
                return True
        return False
