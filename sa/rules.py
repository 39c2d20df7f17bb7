"""Rules over declarations, calls and effects, decided from the syntax tree."""
import ast
import os

from .obligations import *
from .obligations import obligation, GTNAME
from .terms import _raw
from .schemas import Schemas, Field, Unknown, min_length, fits, fits_schema, validators
from .program import Cls
from . import regex
from .pp import pp

# ------------------------------------------------------------------ schemas

EMPTY_OK = ("SettingsSchema", "EasyReadingSettingsSchema", GTNAME + "Schema")


def hook_held(x, name):
    """Whether another obligation, decided here too, is held; nothing is recorded."""
    from .obligations import OBL
    keep, x.S.obligations = x.S.obligations, []
    try:
        OBL[name][1](x)
        return all(o["status"] == "held" for o in x.S.obligations)
    finally:
        x.S.obligations = keep


def rec(x, label, rule, where, verdict, detail=()):
    x.S.done(label, rule, where, {True: "held", False: "violated", None: "undecided"}[verdict], list(detail))


def declared(x, S, cls, name):
    """(field or None, where); raises Unknown."""
    c = x.m.cls(cls)
    return S.field(c, name), S.where(c, name)


@obligation("schema_empty", "empty tokens and rules without tokens are refused")
def _(x):
    S = Schemas(x)
    rule = "the field has a validator that refuses what is empty"
    todo = [(c, "tokens", "keys") for c in EMPTY_OK] + [("TransliterationRuleSchema", "tokens", None), ("OnMatchRuleSchema", "prev_classes", None), ("OnMatchRuleSchema", "next_classes", None)]
    for c, n, part in todo:
        label = "%s.%s: %s not empty" % (c, n, part or "value")
        w = None
        try:
            w = S.where(x.m.cls(c), n)
            f, w = declared(x, S, c, n)
            if f is None:
                raise Unknown("no field")
            g = f.sub(part) if part else f
            r = 0 if g is None else min_length(g)
            v = {1: True, 0: False, None: None}[r]
            if v is False and hooks_may(x, c, ("validates_schema", "validates", "pre_load", "post_load"), EXPECT):
                v = None
            rec(x, label, rule, w, v, [] if v else ["%s of %s may be empty" % (part or "value", n)])
        except Unknown as e:
            rec(x, label, rule, w, None, [str(e)])
    for c in ("SettingsSchema", GTNAME + "Schema"):
        for n, of in (("rules", "TransliterationRuleSchema"), ("onmatch_rules", "OnMatchRuleSchema")):
            label = "%s.%s validated by %s" % (c, n, of)
            try:
                f, w = declared(x, S, c, n)
                if f is None:
                    raise Unknown("no field")
                g = f.inner if f.kind == "List" else f
                if g is None or g.kind != "Nested":
                    rec(x, label, "each rule is validated", w, False if g is None or g.kind in ("Raw", "Dict") else None)
                    continue
                cls = g.nested()
                rec(x, label, "each rule is validated", w, True if x.m.p.is_subclass(cls, x.m.cls(of)) else None)
            except Unknown as e:
                rec(x, label, "each rule is validated", S.where(x.m.cls(c), n), None, [str(e)])


# Hooks that the unchanged schemas have and obligations decide: any other may do what a field does not.
EXPECT = {
    "SettingsSchema": {"validates_schema": 2, "post_load": 2}, "TransliterationRuleSchema": {"post_load": 1}, "OnMatchRuleSchema": {"post_load": 1},
    "EasyReadingSettingsSchema": {}, GTNAME + "Schema": {"pre_load": 1, "post_load": 1, "validates_schema": 1},
    "WhitespaceDictSettingsSchema": {}, "WhitespaceSettingsSchema": {"post_load": 1},
}


def hooks_may(x, cls, kinds, expect):
    """Whether hooks other than those known could do what a field does not."""
    c = x.m.cls(cls if "." in cls else ("schemas." + cls if cls.startswith("Whitespace") else cls))
    for k in kinds:
        if len(x.hooks(c, k)) > expect.get(cls, {}).get(k, 0):
            return True
    return False


REQUIRED_PARTS = [
    ("SettingsSchema", ("tokens", "rules", "whitespace")),
    ("TransliterationRuleSchema", ("production", "tokens")),
    ("OnMatchRuleSchema", ("prev_classes", "next_classes", "production")),
    ("schemas.WhitespaceSettingsSchema", ("default", "token_class", "consolidate")),
    ("EasyReadingSettingsSchema", ("tokens", "rules")),
]
OPTIONAL_PARTS = [("SettingsSchema", ("onmatch_rules", "metadata")), ("EasyReadingSettingsSchema", ("onmatch_rules", "metadata")),
                  ("TransliterationRuleSchema", ("prev_classes", "prev_tokens", "next_tokens", "next_classes", "cost"))]


@obligation("schema_required", "missing parts are refused, and only those")
def _(x):
    S = Schemas(x)
    for table, want in ((REQUIRED_PARTS, True), (OPTIONAL_PARTS, False)):
        for c, names in table:
            for n in names:
                label = "%s.%s %s" % (c.split(".")[-1], n, "required" if want else "optional")
                rule = "a part that must be given has a field with required=True, no other part has"
                w = S.where(x.m.cls(c))
                try:
                    f, w = declared(x, S, c, n)
                    if f is None:
                        rec(x, label, rule, w, False, ["there is no such field"])
                        continue
                    v = f.required is want
                    if want and v and f.has_default:
                        raise Unknown("default")
                    if not v and want and hooks_may(x, c.split(".")[-1], ("validates_schema", "validates", "pre_load"), EXPECT):
                        v = None
                    rec(x, label, rule, w, v, [] if v else ["required=%s" % f.required])
                except Unknown as e:
                    rec(x, label, rule, w, None, [str(e)])
    for c in ("SettingsSchema",):
        for n in ("rules", "whitespace", "onmatch_rules"):
            f, w = None, S.where(x.m.cls(c), n)
            try:
                f, w = declared(x, S, c, n)
                if f is None:
                    continue
                g = f.inner if f.kind == "List" else f
                bad = g is not None and g.kw.get("partial") not in (None, NONE, FALSE)
                rec(x, "%s.%s not partial" % (c, n), "nested parts are validated in full", w, not bad)
            except Unknown as e:
                rec(x, "%s.%s not partial" % (c, n), "nested parts are validated in full", w, None, [str(e)])


STRS = ("list", "str")
RULEPARTS = {n: (STRS, ("none",) if "_" in n else ()) for n in ("prev_classes", "prev_tokens", "tokens", "next_tokens", "next_classes")}
RULE_T = ("nested", dict({k: (t, ()) for k, (t, o) in RULEPARTS.items()}, production=("str", ()), cost=("float", ())))
ONMATCH_T = ("nested", dict(prev_classes=(STRS, ()), next_classes=(STRS, ()), production=("str", ())))
WHITE_T = ("nested", dict(default=("str", ()), token_class=("str", ()), consolidate=("bool", ())))
CONS_T = ("nested", {n: (STRS, ()) for n in ("prev_classes", "prev_tokens", "next_tokens", "next_classes")})
EDGE_T = ("nested", dict(token=("str", ()), cost=("float", ()), constraints=(CONS_T, ())))
NODE_T = ("nested", dict(token=("str", ()), type=("str", ()), ordered_children=(("dict", "str", ("list", "int")), ()), accepting=("bool", ()), rule_key=("int", ())))
GRAPH_T = ("nested", dict(node=(("list", NODE_T), ()), edge=(("dict", "int", ("dict", "int", EDGE_T)), ()), edge_list=(("list", ("tuple",)), ())))
SETTINGS_T = dict(tokens=(("dict", "str", STRS), ()), rules=(("list", RULE_T), ()), whitespace=(WHITE_T, ()), onmatch_rules=(("list", ONMATCH_T), ()), metadata=(("dict", "str", "any"), ()))
DUMP_T = dict(
    SETTINGS_T, onmatch_rules=(("list", ONMATCH_T), ("none",)), metadata=(("dict", "str", "any"), ("none",)), ignore_errors=("bool", ()),
    onmatch_rules_lookup=(("dict", "str", ("dict", "str", ("list", "int"))), ("none",)), tokens_by_class=(("dict", "str", STRS), ()), graph=(GRAPH_T, ()),
    tokenizer_pattern=("str", ()), graphtransliterator_version=("str", ()))
LEAST = {"tokens keys", "rules.tokens", "onmatch_rules.prev_classes", "onmatch_rules.next_classes"}


def count_parts(t):
    if isinstance(t, str):
        return 1
    if isinstance(t, dict):
        return sum(count_parts(v[0]) for v in t.values())
    if t[0] == "nested":
        return 1 + count_parts(t[1])
    return 1 + sum(count_parts(y) for y in t[1:])


def takes(x, cls, parts, rule, none_rule):
    S = Schemas(x)
    c = x.m.cls(cls)
    out = []
    fits_schema(S, c, parts, "", out, LEAST)
    seen = set()
    for p, how, why, w in out:
        v = False if how == "bad" else None
        if how == "none":
            v = None if hooks_may(x, cls, ("pre_dump",), {}) or not hook_held(x, "schema_post_dump") else False
        if how == "bad" and why == "validator" and hooks_may(x, cls, ("pre_load", "pre_dump"), EXPECT):
            v = None
        if p not in seen:
            seen.add(p)
            rec(x, "%s: %s" % (cls, p), none_rule if how == "none" else rule, w, v, [why])
    for n in parts:
        if not any(p == n or p.startswith((n + ".", n + " ", n + "[")) for p in seen):
            rec(x, "%s: %s" % (cls, n), rule, S.where(c, n), True)
            x.S.obligations[-1]["instances"] = count_parts(parts[n][0])


@obligation("schema_dump", "every part has a field that dumps and loads it as it is")
def _(x):
    takes(x, GTNAME + "Schema", DUMP_T, "a field, for both dumping and loading, takes every value the part may have", "what is not given (None) can be dumped and loaded")


@obligation("schema_settings", "every part of valid settings is taken as it is")
def _(x):
    takes(x, "SettingsSchema", SETTINGS_T, "a field takes every value the part may have", "")


@obligation("schema_defaults", "options not given have their documented defaults")
def _(x):
    S = Schemas(x)
    for n in ("ignore_errors", "check_ambiguity"):
        w = S.where(x.m.cls(GTNAME + "Schema"))
        label = "%sSchema.%s" % (GTNAME, n)
        rule = "there is no default but false"
        try:
            f, w = declared(x, S, GTNAME + "Schema", n)
            if f is None:
                rec(x, label, rule, w, False, ["there is no such field"])
                continue
            d = [f.kw[k] for k in ("load_default", "missing") if k in f.kw]
            ok = all(v is FALSE for v in d)
            rec(x, label, rule, w, True if ok else False if all(is_const(v) for v in d) else None, [repr(v) for v in d])
        except Unknown as e:
            rec(x, label, rule, w, None, [str(e)])


def pattern_of(t):
    """(pattern, flags) of a term that is a regular expression."""
    fl = 0
    if is_const(t) and type(cval(t)) is str:
        return cval(t), 0
    if t.op == "call" and t.args[0] == "re.compile":
        a = t.args[1:]
        if a and is_const(a[0]) and type(cval(a[0])) is str:
            if len(a) == 1:
                return cval(a[0]), 0
    raise Unknown("regular expression %s" % repr(t)[:80])


@obligation("schema_easy", "easy reading settings are refused unless in the notation")
def _(x):
    S = Schemas(x)
    c = "EasyReadingSettingsSchema"
    want = {}
    for n, sp in (("rules", "RULE"), ("onmatch_rules", "ONMATCH")):
        m = x.m.p.mods["spec_build"]
        want[n] = pattern_of(S.value(m, m.defs[sp]))[0]
    for n in ("rules", "onmatch_rules"):
        label = "%s.%s: keys in notation" % (c, n)
        rule = "keys are validated by the regular expression of the notation"
        w = S.where(x.m.cls(c))
        try:
            f, w = declared(x, S, c, n)
            if f is None:
                rec(x, label, rule, w, False, ["there is no such field"])
                continue
            d = f
            if n == "onmatch_rules":
                d = f.inner
                if d is None or d.kind != "Dict":
                    raise Unknown("items")
                ls = [v for v in d.validators() if v and v[0] == "Length"]
                eq = any(v[1].get("equal") is ONE or v[1].get("min") is ONE and v[1].get("max") is ONE for v in ls)
                more = None in d.validators() or hooks_may(x, c, ("validates_schema", "validates", "pre_load", "post_load"), EXPECT)
                if not eq and not more and one_checked(x):
                    eq = True
                rec(x, "%s.%s: one rule in an item" % (c, n), "each item has exactly one on-match rule", w, True if eq else None if more else False)
            if d.kind != "Dict":
                raise Unknown(d.kind)
            k = d.sub("keys")
            vs = k.validators() if k is not None else []
            rs = [v for v in vs if v and v[0] == "Regexp"]
            if not rs:
                more = None in vs or hooks_may(x, c, ("validates_schema", "validates", "pre_load", "post_load"), EXPECT)
                rec(x, label, rule, w, None if more else False, ["keys are not validated"])
                continue
            p = pattern_of(rs[0][1]["regex"])
            if p[0] == want[n]:
                v = True
            else:
                v = regex.same_language(p[0], want[n])
            fl = rs[0][1].get("flags")
            if fl is not None and fl is not ZERO:
                v = None
            rec(x, label, rule, w, v, [] if v else ["pattern %s" % p[0]])
        except Unknown as e:
            rec(x, label, rule, w, None, [str(e)])


def one_checked(x):
    """Whether the conversion itself refuses an item of several rules: what it
    raises then is no validation error, so it does not count."""
    return False


# ---------------------------------------------------------------- exceptions

@obligation("exceptions", "the library's exceptions have one base")
def _(x):
    p = x.m.p
    base = x.m.cls("exceptions.GraphTransliteratorException")
    for n in ("UnrecognizableInputTokenException", "NoMatchingTransliterationRuleException", "AmbiguousTransliterationRulesException", "IncorrectVersionException",
              "IncompleteGraphCoverageException", "IncompleteOnMatchRulesCoverageException"):
        c = x.m.cls("exceptions." + n)
        w = "%s:%s %s" % (os.path.relpath(c.mod.path, x.repo), c.node.lineno, n)
        m = p.mro(c)
        known = all(isinstance(b, Cls) or b in ("Exception", "BaseException", "ValueError", "RuntimeError", "KeyError", "LookupError", "object", "TypeError") for b in m)
        ok = base in [b for b in m if isinstance(b, Cls)]
        rec(x, "exception " + n, "derived from the common base exception", w, True if ok else False if known else None, [str(getattr(b, "name", b)) for b in m[1:]])
    m = p.mro(base)
    rec(x, "exception base", "derived from Exception", "%s:%s %s" % (os.path.relpath(base.mod.path, x.repo), base.node.lineno, base.name), True if "Exception" in m else False if "BaseException" in m else None)


# --------------------------------------------------- code made of content

from .names import Names, arg, in_function, enclosing, parents, bindings, params, own, FUNC  # noqa: E402


def at(x, n):
    return "%s:%s %s" % (os.path.relpath(n._mod.path, x.repo), n.lineno, in_function(n))


def snippet(n):
    return ast.unparse(n)[:160]


RUNS = {"eval", "exec", "compile", "builtins.eval", "builtins.exec", "builtins.compile", "execfile", "runpy.run_path", "runpy.run_module", "code.interact",
        "os.system", "os.popen", "os.startfile", "subprocess.run", "subprocess.call", "subprocess.Popen", "subprocess.check_call", "subprocess.check_output",
        "subprocess.getoutput", "subprocess.getstatusoutput", "pickle.load", "pickle.loads", "pickle.Unpickler", "_pickle.loads", "cPickle.loads", "marshal.load", "marshal.loads",
        "shelve.open", "dill.load", "dill.loads", "cloudpickle.load", "cloudpickle.loads", "joblib.load", "jsonpickle.decode", "types.FunctionType", "types.CodeType",
        "pty.spawn", "timeit.timeit", "timeit.repeat", "sympy.sympify", "numexpr.evaluate", "pandas.eval", "pandas.read_pickle", "imp.load_source", "click.edit"}
RUNS_LIKE = ("os.exec", "os.spawn", "os.posix_spawn")
UNSAFE_YAML = {"yaml.unsafe_load", "yaml.unsafe_load_all", "yaml.full_load", "yaml.full_load_all"}
LOADERS_OK = {"SafeLoader", "CSafeLoader", "BaseLoader", "CBaseLoader"}
LOADERS_BAD = {"Loader", "FullLoader", "UnsafeLoader", "CLoader", "CFullLoader", "CUnsafeLoader"}


def loader_ok(nm, e):
    """True, False or None (unknown)."""
    out = True
    for r in nm.resolve(e):
        if r is None:
            v = None
        elif r[0] == "ext" and r[1].startswith("yaml."):
            b = r[1].split(".")[-1]
            v = True if b in LOADERS_OK else False if b in LOADERS_BAD else None
        elif r[0] == "cls":
            bs = [b for b in nm.p.mro(r[1]) if isinstance(b, str) and b.startswith("yaml.")]
            v = False if any(b.split(".")[-1] in LOADERS_BAD for b in bs) else True if bs and all(b.split(".")[-1] in LOADERS_OK for b in bs) else None
        else:
            v = None
        if v is False:
            return False
        if v is None:
            out = None
    return out


def pkgutil_names(nm, e):
    """Whether an expression only holds names that pkgutil found in the package."""
    if isinstance(e, ast.Name):
        b, f = nm.find(e, e.id)
        if b and b[0] == "other" and isinstance(b[1], (ast.For, ast.Tuple, ast.comprehension)):
            p = b[1]
            while not isinstance(p, (ast.For, ast.comprehension)):
                p = p._parent
            return any(isinstance(c, ast.Call) and any(r and r[0] == "ext" and r[1].startswith("pkgutil.") for r in nm.resolve(c.func)) for c in ast.walk(p.iter))
        if b and b[0] == "expr":
            return pkgutil_names(nm, b[1])
    if isinstance(e, (ast.JoinedStr, ast.BinOp, ast.Attribute)):
        ns = [y for y in ast.walk(e) if isinstance(y, ast.Name)]
        return bool(ns) and all(pkgutil_names(nm, y) or isinstance(nm.fold(y), str) or y.id in ("__name__", "__package__") for y in ns)
    return False


def judge_code(nm, n, names):
    """(verdict, what) for a call that could run content, else None."""
    ext = [r[1] for r in names if r and r[0] == "ext"]
    for d in ext:
        if d in RUNS or d.startswith(RUNS_LIKE):
            if n.args and isinstance(nm.fold(n.args[0]), (str, bytes)) and d in ("eval", "exec", "compile", "builtins.eval", "builtins.exec"):
                return True, d + " of a constant"
            return False, d
        if d in UNSAFE_YAML:
            return False, d
        if d in ("yaml.load", "yaml.load_all"):
            l = arg(n, 1, "Loader")
            if l == "*":
                return None, d
            if l is None:
                return False, d + " without the safe loader"
            return loader_ok(nm, l), d
        if d.startswith("yaml.") and d.split(".")[-1] in LOADERS_BAD:
            return False, d
        if d.startswith("yaml.") and d.split(".")[-1] in ("safe_load", "safe_load_all") or d.startswith("yaml.") and d.split(".")[-1] in LOADERS_OK:
            return True, d
        if d in ("yaml.add_constructor", "yaml.add_multi_constructor", "yaml.SafeLoader.add_constructor", "yaml.SafeLoader.add_multi_constructor"):
            return None, d
        if d in ("__import__", "importlib.import_module", "importlib.__import__", "builtins.__import__"):
            if not n.args:
                return None, d
            if isinstance(nm.fold(n.args[0]), str) or pkgutil_names(nm, n.args[0]):
                return True, d + " of names of the package"
            # a name that starts with the package's own reaches its modules only
            a = n.args[0]
            if isinstance(a, ast.JoinedStr) and a.values and isinstance(a.values[0], ast.Constant) and str(a.values[0].value).startswith("graphtransliterator."):
                return None, d
            return False, d + " of a name that is not constant"
    if isinstance(n.func, ast.Attribute) and n.func.attr in ("load_module", "find_module", "exec_module", "find_spec") and names == {None}:
        return (True if all(pkgutil_names(nm, a) for a in n.args) else None), "." + n.func.attr
    return "none"


SAMPLE = '''
import yaml, pickle, os, importlib
from yaml import load as ld
def f(s, name):
    eval(s)
    e = exec
    e(s)
    yaml.load(s, Loader=yaml.FullLoader)
    ld(s, yaml.Loader)
    yaml.load(s)
    pickle.loads(s)
    os.system("x " + s)
    importlib.import_module(name)
    yaml.unsafe_load(s)
    getattr(yaml, "full_load")(s)
'''


def sample(x, text, name):
    from .program import Mod
    m = Mod("spec_sample_" + name, os.path.join(x.repo, "sample.py"), text)
    x.m.p.mods[m.name] = m
    return m


def gather(x, judge, label, rule, text, want, what):
    """Apply a rule to every call; a sample of violations must be found first."""
    nm = Names(x.m.p)
    s = sample(x, text, label.split()[0])
    bad = sum(1 for n in ast.walk(s.tree) if isinstance(n, ast.Call) and judge(nm, n, nm.resolve(n.func))[0] is False)
    rec(x, label + ": the rule finds each violation of its sample", "%d violations in a sample" % want, "sa/rules.py", True if bad == want else None, ["found %d of %d" % (bad, want)] if bad != want else [])
    k = 0
    seen = 0
    for n, names in nm.calls():
        k += 1
        r = judge(nm, n, names)
        if r == "none":
            continue
        seen += 1
        v, d = r
        rec(x, "%s: %s" % (label, d), rule, at(x, n), v, [snippet(n)] if v is not True else [])
    rec(x, label + ": every call", what, "graphtransliterator/", True)
    x.S.obligations[-1]["instances"] = k


@obligation("no_code", "content is never run")
def _(x):
    gather(x, judge_code, "code run", "no call that runs text as code, unpickles, starts processes, imports by content or reads YAML with other than the safe loader", SAMPLE, 10, "calls resolved to what they call, by name")


# ------------------------------------------------------------------- files

def encoding_ok(nm, e, depth=0):
    """True, False or None."""
    import codecs
    v = nm.fold(e)
    if v is not nm.UNKNOWN:
        if v is None:
            return False
        try:
            c = codecs.lookup(v).name
        except (LookupError, TypeError):
            return False
        return True if c == "utf-8" else None if c == "utf-8-sig" else False
    for r in nm.resolve(e.func) if isinstance(e, ast.Call) else ():
        if r and r[0] == "ext" and (r[1].startswith("locale.") or r[1] == "sys.getfilesystemencoding"):
            return False
        if r and r[0] == "ext" and r[1] == "sys.getdefaultencoding":
            return True
    if isinstance(e, ast.Name) and depth < 4:
        b, f = nm.find(e, e.id)
        if b and b[0] == "param" and isinstance(f, ast.FunctionDef):
            vs = [passed(nm, c, f, b[1]) for c in callers(nm, f)]
            vs = [default_of(f, b[1]) if v is None else v for v in vs]
            if vs and all(v is not None and v != "*" for v in vs):
                rs = [encoding_ok(nm, v, depth + 1) for v in vs]
                return False if False in rs else None if None in rs else True
    return None


def callers(nm, f):
    """Calls in the package of a function of it (by name, for methods)."""
    out = []
    for n, names in nm.calls():
        if any(r and r[0] == "def" and r[1] is f for r in names) or names == {None} and isinstance(n.func, ast.Attribute) and n.func.attr == f.name:
            out.append(n)
    return out


def passed(nm, call, f, name):
    ps = [a.arg for a in f.args.posonlyargs + f.args.args]
    if isinstance(call.func, ast.Attribute) and ps and ps[0] in ("self", "cls"):
        ps = ps[1:]
    return arg(call, ps.index(name) if name in ps else None, name)


def default_of(f, name):
    a = f.args
    ps = a.posonlyargs + a.args
    for p, d in zip(reversed(ps), reversed(a.defaults)):
        if p.arg == name:
            return d
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        if p.arg == name:
            return d
    return None


OPENS = {"open": (1, 3), "io.open": (1, 3), "builtins.open": (1, 3), "codecs.open": (1, 2), "os.fdopen": (1, 3), "io.TextIOWrapper": (None, 1), "click.open_file": (1, 2),
         "tempfile.NamedTemporaryFile": (0, 2), "tempfile.TemporaryFile": (0, 2), "gzip.open": (1, 3)}


def opening(nm, n, names):
    """(mode index or None, encoding index, what) if the call opens a file as text or not."""
    for r in names:
        if r and r[0] == "ext" and r[1] in OPENS:
            return OPENS[r[1]] + (r[1],)
    if isinstance(n.func, ast.Attribute) and (names == {None} or any(r and r[0] in ("param",) for r in names) or any(r and r[0] == "ext" and r[1].startswith("pathlib.") for r in names)):
        if n.func.attr == "open":
            return (0, 2, ".open")
        if n.func.attr == "read_text":
            return (None, 0, ".read_text")
        if n.func.attr == "write_text":
            return (None, 1, ".write_text")
    if any(r and r[0] == "ext" and r[1] in ("pathlib.Path.read_text", "pathlib.Path.write_text", "pathlib.Path.open") for r in names):
        return None
    return None


def judge_encoding(nm, n, names):
    o = opening(nm, n, names)
    if o is None:
        return "none"
    mi, ei, what = o
    if mi is not None:
        m = arg(n, mi, "mode")
        if m == "*":
            return None, what
        if m is not None:
            v = nm.fold(m)
            if v is nm.UNKNOWN:
                return None, what
            if isinstance(v, str) and "b" in v:
                return True, what + " in binary"
        elif what in ("tempfile.NamedTemporaryFile", "tempfile.TemporaryFile", "gzip.open"):
            return True, what + " in binary"
        if what == "codecs.open" and arg(n, ei, "encoding") is None:
            return True, what + " in binary"
    e = arg(n, ei, "encoding")
    if e == "*":
        return None, what
    if e is None:
        return False, what + " without encoding"
    return encoding_ok(nm, e), what


def judge_closed(nm, n, names, depth=0):
    o = opening(nm, n, names)
    if o is None or o[2] in (".read_text", ".write_text"):
        return "none"
    return closed(nm, n, depth), o[2]


def closed(nm, n, depth=0):
    p = n._parent
    if isinstance(p, ast.withitem) and p.context_expr is n:
        return True
    if isinstance(p, ast.IfExp):
        return closed(nm, p, depth)
    if isinstance(p, ast.Call) and n in p.args:
        rs = nm.resolve(p.func)
        if any(r and r[0] == "ext" and r[1] == "contextlib.closing" for r in rs):
            return closed(nm, p, depth)
        if isinstance(p.func, ast.Attribute) and p.func.attr in ("enter_context", "push", "callback"):
            return True
        if any(r and r[0] == "ext" and (r[1].startswith(("yaml.", "json.")) or r[1] in ("list", "sorted", "iter", "enumerate", "tuple", "set")) for r in rs):
            return False
        return None
    if isinstance(p, ast.Attribute) and isinstance(p._parent, ast.Call) and p._parent.func is p:
        return True if p.attr == "close" else False
    if isinstance(p, (ast.For, ast.comprehension)) and p.iter is n:
        return False
    if isinstance(p, ast.Return):
        fs = enclosing(n)
        if fs and depth < 4 and isinstance(fs[0], ast.FunctionDef):
            cs = callers(nm, fs[0])
            if cs:
                rs = [closed(nm, c, depth + 1) for c in cs]
                return False if False in rs else None if None in rs else True
        return None
    if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
        name = p.targets[0].id
        fs = enclosing(n)
        scope = list(own(fs[0])) if fs else list(ast.walk(n._mod.tree))
        uses = [y for y in scope if isinstance(y, ast.Name) and y.id == name and isinstance(y.ctx, ast.Load)]
        for u in uses:
            if isinstance(u._parent, ast.withitem):
                return True
            q = u._parent
            if isinstance(q, ast.Call) and u in q.args and any(r and r[0] == "ext" and r[1] == "contextlib.closing" for r in nm.resolve(q.func)):
                return True
            if isinstance(q, ast.Call) and isinstance(q.func, ast.Attribute) and q.func.attr in ("enter_context",):
                return True
        fin = [u for u in uses if isinstance(u._parent, ast.Attribute) and u._parent.attr == "close" and any(isinstance(t, ast.Try) and any(u in ast.walk(s) for s in t.finalbody) for t in parents(u))]
        if fin:
            t = next(t for t in parents(fin[0]) if isinstance(t, ast.Try) and any(fin[0] in ast.walk(s) for s in t.finalbody))
            if any(n in ast.walk(s) for s in t.body):
                return True
            # the try statement has to follow at once
            b = body_of(p)
            if b is not None and t in b and b.index(t) == b.index(p) + 1:
                return True
            return None
        esc = [u for u in uses if not isinstance(u._parent, ast.Attribute)]
        if any(isinstance(u._parent, ast.Return) or isinstance(u._parent, (ast.Assign, ast.Yield, ast.keyword)) for u in esc):
            return None
        for u in esc:
            q = u._parent
            if isinstance(q, ast.Call) and not any(r and r[0] == "ext" and (r[1].startswith(("yaml.", "json.")) or r[1] in ("list", "iter", "enumerate")) for r in nm.resolve(q.func)):
                return None
        return False
    return None


def body_of(s):
    p = s._parent
    for f in ("body", "orelse", "finalbody"):
        b = getattr(p, f, None)
        if isinstance(b, list) and s in b:
            return b
    return None


FILES = '''
import io, codecs, yaml, locale
from pathlib import Path
def f(n, p):
    with open(n) as a: pass
    with open(n, "r", encoding=None) as a: pass
    with io.open(n, "w", encoding="latin-1") as a: pass
    Path(n).read_text()
    with p.open() as a: pass
    with open(n, encoding=locale.getpreferredencoding()) as a: pass
    with codecs.open(n, "r", "ascii") as a: pass
'''
CLOSE = '''
import yaml
def f(n):
    open(n, encoding="utf-8").read()
    yaml.safe_load(open(n, encoding="utf-8"))
    h = open(n, encoding="utf-8")
    t = h.read()
    h.close()
    for l in open(n, encoding="utf-8"): pass
    return t
'''


@obligation("files_utf8", "files are read and written as UTF-8")
def _(x):
    gather(x, judge_encoding, "encoding of files", "every file opened as text is opened with an encoding that is the constant UTF-8", FILES, 7, "calls resolved to what they call, by name")


@obligation("files_closed", "files are closed on all paths")
def _(x):
    gather(x, judge_closed, "closing of files", "every file opened is closed by a with statement, by finally or by the caller that gets it", CLOSE, 4, "calls resolved to what they call, by name")


# ----------------------------------------------------------------- commands

FORMATS = {"bundled", "json", "json_file", "yaml_file"}


def flag(*names):
    return dict(opts=set(names), flag=True, default=False)


AMB = dict(flag("--check-ambiguity", "-ca"), off={"--no-check-ambiguity", "-nca"})
FROM = dict(opts={"--from", "-f"}, nargs=2, required=True, choices=FORMATS)
COMMANDS = {
    "transliterate": {
        "from_": FROM, "to": dict(opts={"--to", "-t"}, default="python", choices={"json", "python"}), "check_ambiguity": AMB,
        "ignore_errors": dict(flag("--ignore-errors", "-ie"), off={"--no-ignore-errors", "-nie"}), "input": dict(argument=True, nargs=-1)},
    "dump": {"from_": dict(FROM, choices={"bundled", "yaml_file"}), "check_ambiguity": AMB,
             "compression_level": dict(opts={"--compression-level", "-cl"}, default="DEFAULT_COMPRESSION_LEVEL")},
    "dump_tests": {"to": dict(opts={"--to", "-t"}, default="yaml", choices={"json", "yaml"}), "bundled": dict(argument=True)},
    "generate_tests": {"from_": FROM, "check_ambiguity": AMB},
    "test": {"check_ambiguity": AMB, "bundled": dict(argument=True)},
    "list_bundled": {},
    "make_json": {"bundled": dict(argument=True, nargs=1), "regex": flag("--regex", "-re")},
}


def click_param(S, mod, e):
    """{...} of a decorator that is click.option or click.argument; None for another."""
    t = S.value(mod, e)
    if t.op == "glob" and t.args[0].startswith("click."):
        return None
    if t.op != "call" or type(t.args[0]) is not str:
        raise Unknown(repr(t)[:100])
    name = t.args[0]
    if name not in ("click.option", "click.argument"):
        if name.startswith("click."):
            return None
        raise Unknown(name)
    kw, pos = {}, []
    for a in t.args[1:]:
        if a.op == "kw":
            if a.args[0] == "**":
                raise Unknown("keyword arguments")
            kw[a.args[0]] = a.args[1]
        else:
            if not is_const(a):
                raise Unknown("names of an option")
            pos.append(cval(a))
    out = dict(argument=name == "click.argument", opts=set(), off=set())
    given = None
    for d in pos:
        if d.startswith("-"):
            on, _, off = d.partition("/")
            out["opts"].add(on.strip())
            if off:
                out["off"].add(off.strip())
        elif out["argument"] or d.isidentifier():
            given = d
    if given is None:
        longest = sorted(out["opts"], key=lambda o: -len(o) + len(o.lstrip("-")))
        given = longest[0].lstrip("-").replace("-", "_").lower() if longest else ""
    out["name"] = given.lower() if out["argument"] else given

    def cst(k, default):
        v = kw.get(k)
        if v is None:
            return default
        if not is_const(v):
            raise Unknown(k)
        return cval(v)

    out["default"] = cst("default", None)
    out["flag"] = bool(out["off"]) or bool(cst("is_flag", False)) or "flag_value" in kw
    if out["flag"] and out["default"] is None:
        out["default"] = False
    out["required"] = cst("required", out["argument"])
    out["nargs"] = cst("nargs", None)
    out["choices"] = None
    ty_ = kw.get("type")
    if ty_ is not None:
        ts = ty_.args if ty_.op == "tuple" else [ty_]
        if ty_.op == "tuple" and out["nargs"] is None:
            out["nargs"] = len(ts)
        for y in ts:
            if type(y) is T and y.op == "call" and y.args[0] == "click.Choice":
                c = y.args[1]
                if c.op not in ("list", "tuple") or not all(is_const(z) for z in c.args):
                    raise Unknown("choices")
                out["choices"] = {cval(z) for z in c.args}
    out["more"] = sorted(set(kw) - {"default", "is_flag", "required", "nargs", "type", "help", "show_default", "metavar", "hidden"})
    return out


@obligation("commands", "options and arguments of commands")
def _(x):
    S = Schemas(x)
    nm = Names(x.m.p)
    m = x.m.p.mods["graphtransliterator.cli"]
    level = None
    d = x.m.p.lookup("graphtransliterator", "DEFAULT_COMPRESSION_LEVEL")
    if d and d[0] == "expr":
        level = nm.fold(d[1])
    for c, want in COMMANDS.items():
        node, mod, _ = x.m.fn("cli." + c)
        w = x.S.where((node, mod, None))
        found, unknown = {}, []
        for e in node.decorator_list:
            try:
                p = click_param(S, mod, e)
                if p is not None:
                    found[p["name"]] = p
            except Unknown as u:
                unknown.append(str(u))
        for n, spec in want.items():
            p = found.get(n)
            label = "command %s: %s" % (c, n)
            rule = "declared as documented: names, default, choices, how many values, and whether it must be given"
            if p is None:
                rec(x, label, rule, w, None if unknown else False, unknown or ["there is no such parameter"])
                continue
            bad, und = [], list(p["more"])
            for k, v in spec.items():
                if k == "default":
                    if v == "DEFAULT_COMPRESSION_LEVEL":
                        if level is None or level is nm.UNKNOWN:
                            und.append(k)
                            continue
                        v = level
                    if p["default"] != v or type(p["default"]) is not type(v):
                        bad.append("default is %r, not %r" % (p["default"], v))
                elif k in ("opts", "off"):
                    other = p["off" if k == "opts" else "opts"]
                    if v & other:
                        bad.append("%s mean the opposite" % sorted(v & other))
                    elif not v <= p[k]:
                        bad.append("without %s" % sorted(v - p[k]))
                elif k == "choices":
                    if p[k] is None:
                        und.append("choices")
                    elif not v <= p[k]:
                        bad.append("without choice %s" % sorted(v - p[k]))
                elif k == "nargs":
                    if (p[k] or 1) != v:
                        bad.append("%s values, not %s" % (p[k] or 1, v))
                elif p[k] != v:
                    bad.append("%s=%r, not %r" % (k, p[k], v))
            for o in p["opts"]:
                if any(o in s.get("off", ()) for s in want.values()):
                    bad.append("%s turns on" % o)
            rec(x, label, rule, w, False if bad else None if und else True, bad or und)
    reg = set()
    some = False
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("add_command", "command") and isinstance(n.func.value, ast.Name) and n.func.value.id == "main":
            for a in n.args[:1]:
                rs = nm.resolve(a)
                for r in rs:
                    if r and r[0] == "def":
                        reg.add(r[1].name)
                    else:
                        some = True
        elif isinstance(n, ast.Attribute) and n.attr in ("add_command", "command") and not isinstance(n._parent, ast.Call):
            some = True
    for c in COMMANDS:
        node, mod, _ = x.m.fn("cli." + c)
        ok = c in reg or any("main.command" in ast.unparse(e) for e in node.decorator_list)
        rec(x, "command %s registered" % c, "added to the group of commands", x.S.where((node, mod, None)), True if ok else None if some else False)


# ---------------------------------------------------------- bundled files

@obligation("bundled_files", "bundled JSON files agree with YAML files")
def _(x):
    from . import data
    p = x.m.p
    base = x.m.cls("transliterators.Bundled")
    nm = Names(p)
    v = p.lookup("graphtransliterator", "__version__")
    version = nm.fold(v[1]) if v and v[0] == "expr" else None
    found = [c for c in p.classes.values() if c is not base and p.is_subclass(c, base) and ".transliterators." in c.qual and c.mod.path.endswith("__init__.py")]
    for c in sorted(found, key=lambda c: c.qual):
        d = os.path.dirname(c.mod.path)
        name = os.path.basename(d)
        rel = os.path.relpath(d, x.repo)
        files = {k: os.path.join(d, *f) for k, f in dict(yaml=(name + ".yaml",), json=(name + ".json",), tests=("tests", name + "_tests.yaml")).items()}
        texts = {}
        for k, f in files.items():
            try:
                with open(f, encoding="utf-8") as h:
                    texts[k] = h.read()
                rec(x, "%s: %s file" % (name, k), "the file is there and UTF-8", os.path.relpath(f, x.repo), True)
            except FileNotFoundError:
                rec(x, "%s: %s file" % (name, k), "the file is there and UTF-8", rel, False, ["%s is missing" % os.path.relpath(f, x.repo)])
            except UnicodeDecodeError as e:
                rec(x, "%s: %s file" % (name, k), "the file is there and UTF-8", rel, False, [str(e)])
        if "yaml" not in texts or "json" not in texts:
            continue
        rule = "the JSON file describes what the YAML file describes"
        w = os.path.relpath(files["json"], x.repo)
        try:
            y = data.of_yaml(texts["yaml"])
        except Exception as e:
            rec(x, "%s: YAML read" % name, "the file is in easy reading notation", os.path.relpath(files["yaml"], x.repo), None, [repr(e)])
            continue
        try:
            j, ver = data.of_json(texts["json"])
            diffs = data.compare(y, j)
        except Exception as e:
            rec(x, "%s: JSON read" % name, "the file is in the format that compression writes", w, None, [repr(e)])
            continue
        for part in ("tokens", "rules", "onmatch_rules", "whitespace", "metadata"):
            ds = [t for q, t in diffs if q == part]
            rec(x, "%s: %s" % (name, part), rule, w, not ds, ds[:4])
            x.S.obligations[-1]["instances"] = len(y[part] or ())
        if version is None or version is nm.UNKNOWN or not ver:
            rec(x, "%s: version" % name, "not later than the library's", w, True if not ver else None)
        else:
            rec(x, "%s: version" % name, "not later than the library's", w, not data.later(ver, version), ["%s, library %s" % (ver, version)])
    rec(x, "bundled transliterators found", "each is analysed", "graphtransliterator/transliterators", True if found else None, [c.qual for c in found])


# ------------------------------------------------------------ order of sets

NONDET = {"time.time", "time.time_ns", "time.monotonic", "time.perf_counter", "time.ctime", "time.localtime", "time.gmtime", "time.strftime", "time.asctime", "datetime.datetime.now",
          "datetime.datetime.utcnow", "datetime.datetime.today", "datetime.date.today", "os.urandom", "os.getpid", "os.getcwd", "id", "hash", "object.__repr__", "os.times",
          "platform.node", "socket.gethostname", "getpass.getuser", "os.getlogin", "os.environ.get", "os.getenv", "threading.get_ident", "threading.current_thread"}
NONDET_LIKE = ("random.", "secrets.", "uuid.", "numpy.random.")


def is_nondet(name):
    return type(name) is str and (name in NONDET or name.startswith(NONDET_LIKE))


def settled(x, label, fn, terms, opaque=()):
    """Record whether terms depend on set order or on the moment."""
    from .order import depends
    w = x.S.where(fn) if not isinstance(fn, str) else fn
    bad, und = [], []
    for k, t in terms:
        for certain, u, why in depends(t):
            (bad if certain else und).append("%s: %s: %s" % (k, why, pp(u)[:200]))
        for u in subterms_of(t):
            if u.op == "call" and is_nondet(u.args[0]):
                bad.append("%s: %s" % (k, u.args[0]))
        if any(u.op == "opaque" for u in subterms_of(t)):
            und.append("%s: not modelled in full" % k)
    rec(x, label, "no part of the result is in the order of iteration of a set, or of the moment", w, False if bad else None if und else True, (bad + und)[:4])


@obligation("set_order", "what is generated, compressed and dumped does not depend on the order of sets")
def _(x):
    m, S, V = x.m, x.S, x.V
    args = dict(tokens=V("tokens", D(STR, ("set", STR))), rules=V("rules", L(m.TR)), whitespace=V("whitespace", m.WS), onmatch_rules=V("onmatch_rules", O(L(m.OM))), check_ambiguity=const(False))
    ref, heap, r = m.construct(args)
    for n in ("tokens_by_class", "onmatch_rules_lookup", "tokenizer_pattern", "graph"):
        fn = m.fn(GTNAME + "." + n)
        p = S.pieces(fn, dict(self=ref), heap)
        settled(x, "generated " + n, fn, [(n, p["result"])])
        S.functions |= set(r.inlined) | p.inlined
    fn = m.fn("compression.compress_config")
    for lv in (0, 1, 2):
        p = S.pieces(fn, dict(config=V("config", x.CONFIG), compression_level=const(lv)))
        settled(x, "compressed at level %d" % lv, fn, [("result", p["result"])])
    S.functions |= p.inlined
    fn = m.fn("compression.decompress_config")
    p = S.pieces(fn, dict(compressed_config=V("compressed_config", None)))
    settled(x, "decompressed", fn, [("result", p["result"])])
    gt, heap = x.given()
    for n in ("dump", "dumps"):
        fn = m.fn(GTNAME + "." + n)
        p = S.pieces(fn, dict(self=gt, compression_level=V("compression_level", INT)), heap)
        settled(x, n, fn, [("result", p["result"])])
        S.functions |= p.inlined
    fn = m.fn("transliterators.Bundled.generate_yaml_tests")
    m.stub(GTNAME + ".transliterate", STR, None, gt)
    p = S.pieces(fn, dict(self=gt), heap)
    m.ev.stubs.clear()
    settled(x, "generated tests", fn, [("result", p["result"])])
    S.functions |= p.inlined


@obligation("sets_sorted", "what is held as sets is dumped sorted")
def _(x):
    """Fields give lists in the order of iteration: hooks have to sort those."""
    m, S = x.m, x.S
    c = m.cls(GTNAME + "Schema")
    required("tokens", "tokens_by_class")
    Sc = Schemas(x)
    more = len(x.hooks(c, "pre_dump")) > 0
    for n in ("tokens", "tokens_by_class"):
        drv, names = x.hook_driver(c, "post_dump")
        text = ast.unparse(drv[0]).replace("return data", "return data[%r][k]" % n).replace("data, many)", "data, many, k)", 1)
        fn = x.source(text, "driver_sorted_" + n)
        data = x.V("data", x.DS)
        p = S.pieces(fn, dict(schema=x.V("schema", m.inst(GTNAME + "Schema")), data=data, many=x.V("many", BOOL), k=x.V("k", STR)))
        q = S.pieces(x.source("def want(data, k):\n    return sorted(data[%r][k])\n" % n, "want_sorted_" + n), dict(data=data, k=x.V("k", STR)))
        w = Sc.where(c, names[0]) if names else Sc.where(c)
        k = len(S.obligations)
        S.equal("%s dumped in order" % n, "the classes of a token and the tokens of a class are sorted after dumping", p["result"], q["result"], w, p.opaque)
        o = S.obligations[-1]
        try:
            f = Sc.field(c, n)
            plain = f is not None and f.kind == "Dict" and (f.sub("values") is None or f.sub("values").kind == "List")
        except Unknown:
            plain = False
        if o["status"] == "violated" and (more or not plain or has_call(p["result"], "sorted")):
            o["status"] = "undecided"
        S.functions |= p.inlined


@obligation("moment", "nothing depends on the moment")
def _(x):
    nm = Names(x.m.p)
    k = 0
    for n, names in nm.calls():
        k += 1
        for r in names:
            if r and r[0] == "ext" and is_nondet(r[1]):
                rec(x, "call of %s" % r[1], "time, randomness, identity and environment are not used", at(x, n), None, [snippet(n)])
    rec(x, "every call", "time, randomness, identity and environment are not used", "graphtransliterator/", True)
    x.S.obligations[-1]["instances"] = k
