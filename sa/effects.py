"""What calls read that others left behind, and what they change of what they are given."""
import ast
import os

from .obligations import *
from .obligations import obligation, GTNAME, calls_of, stubs_of, visit_types
from .terms import _raw, opaque
from .diff import compare
from .evalr import TRACE
from .names import Names
from .pp import pp

GIVEN = ("tokens", "rules", "whitespace", "onmatch_rules", "metadata", "onmatch_rules_lookup", "tokens_by_class", "graph")
LEFT = "left behind in "


def subterms(*ts):
    seen, stack = set(), [t for t in ts if type(t) is T]
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        seen.add(t)
        yield t
        stack += [a for a in t.args if type(a) is T]


def names_in(*ts):
    return {t.args[0] for t in subterms(*ts) if t.op in ("sym", "root") and isinstance(t.args[0], str)}


class Call:
    """One evaluation: what it gives, and the places that it writes."""

    def __init__(self, x, name, args, heap, stubs=(), volatile=()):
        m = x.m
        ev = m.ev
        m.ev.stubs.clear()
        for s in stubs:
            try:
                m.stub(*s)
            except Missing:
                pass
        ev.volatile = dict(volatile)
        try:
            self.fn = m.fn(name) if isinstance(name, str) else name
            node, mod, cls = self.fn
            self.r = r = ev.run(node, mod, cls, dict(args), heap=heap)
        finally:
            ev.volatile = {}
            m.ev.stubs.clear()
        x.S.functions |= r.inlined
        self.name, self.heap, self.ev = name, heap or {}, ev
        self.writes = dict(ev.writes)
        self.out = [r.value, r.exc, r.trace()]
        for e in r.raises:
            if TRACE in e.state.heap:
                self.out.append(ev.fz(TRACE, e.state))

    def finals(self, ref):
        """Contents of an object afterwards, whether returning or raising."""
        out = [self.r.content(ref)]
        for e in self.r.raises:
            if ref in e.state.heap:
                out.append(self.ev.fz(ref, e.state))
        return out


    def written(self, ref):
        """The lines of the constructs that write to an object."""
        ls = sorted({getattr(n, "lineno", 0) for (o, w), n in self.writes.items() if o is ref})
        return " (written in line %s)" % ", ".join(map(str, ls)) if ls else ""


def shared(name, mods):
    """Whether a root is the state of a module, a class or a default argument of one."""
    return isinstance(name, str) and any(name.startswith(m + ".") for m in mods)


CALLS = [
    ("tokenize", lambda x: dict(input=x.V("input", STR)), "gt"),
    ("transliterate", lambda x: dict(input=x.V("input", STR)), "gt"),
    ("match_at", lambda x: dict(token_i=x.V("token_i", INT), tokens=x.V("tokens given", LS), match_all=x.V("match_all", BOOL)), "gt"),
]
ARGS = {"input", "token_i", "tokens given", "match_all"}
# settings that may be changed between calls
SETTABLE = {"ignore_errors"}


@obligation("history", "calls read nothing that others left behind")
def _(x):
    rule = "neither results nor errors depend on what an earlier or concurrent call wrote"
    gt, heap = x.given()
    volatile, runs = {}, {}
    todo = list(CALLS)
    for turn in range(3):
        again = []
        for n, mk, _ in todo:
            a = mk(x)
            c = Call(x, GTNAME + "." + n, dict(a, self=gt), heap, calls_of(gt) if n == "transliterate" else (), volatile)
            runs[n] = c, set(volatile)
        found = set()
        for n, (c, _) in runs.items():
            for (o, w) in c.writes:
                if o in heap and o is gt and w is not None:
                    found.add((o, w))
        new = found - set(volatile)
        for k in new:
            volatile[k] = None
        # whatever was evaluated without knowing of an attribute that it may read is evaluated again
        todo = []
        for n, mk, _ in CALLS:
            c, known = runs[n]
            if any(k not in known and reads(x, c, k[1]) for k in volatile):
                todo.append((n, mk, _))
        if not todo:
            break
    mods = [m for m in x.m.p.mods if not m.startswith("spec_")]
    stored = {}
    for n, (c, _) in runs.items():
        for (o, w) in c.writes:
            if o is gt and w is not None:
                for f in c.finals(gt):
                    stored.setdefault(LEFT + w, set()).update(names_in(attr(f, w)))
            elif o.op == "root" and (shared(o.args[0], mods) or outer_default(x, o.args[0])):
                for f in c.finals(o):
                    stored.setdefault(o.args[0], set()).update(names_in(f))
    for n, (c, _) in runs.items():
        w = x.S.where(c.fn)
        got = names_in(*c.out)
        bad = sorted(k for k in stored if k in got)
        verdict, det = True, []
        for k in bad:
            v = False if stored[k] & (ARGS | SETTABLE) else None
            verdict = False if v is False or verdict is False else None
            det.append("%s reads what is %s%s" % (n, "" if k.startswith(LEFT) else "left behind in ", k))
        record(x, "%s: reads nothing of other calls" % n, rule, w, verdict, det)
        # what is given stays as it is
        det, verdict = [], True
        for k in GIVEN:
            before = c.ev.fz(root(k), type("S", (), dict(heap=heap))) if root(k) in heap else sym(k)
            for f in c.finals(root(k)):
                v = unchanged(f, before)
                if v is None and c.written(root(k)):
                    v = False
                if v is not True:
                    verdict = False if v is False or verdict is False else None
                    det.append("%s of the transliterator: %s" % (k, pp(f)[:300]))
        record(x, "%s: changes no settings" % n, "tokens, rules, whitespace, lookups and graph are as before", w, verdict, det)
        if c.r.opaque and verdict is True:
            pass
    caches(x, runs)


def outer_default(x, name):
    """default:MOD.FUNCTION:PARAMETER of a function that is made once."""
    if not isinstance(name, str) or not name.startswith("default:"):
        return False
    mod, _, fn = name[len("default:"):].rpartition(":")[0].rpartition(".")
    m = x.m.p.mods.get(mod)
    if m is None:
        return False
    for n in ast.walk(m.tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            for k in ast.iter_child_nodes(n):
                if isinstance(k, ast.FunctionDef) and k.name == fn.split(".")[-1] and isinstance(n, ast.ClassDef):
                    return True
    return any(isinstance(n, ast.FunctionDef) and n.name == fn for n in m.tree.body)


def reads(x, c, name):
    """Whether anything that was evaluated takes an attribute of that name."""
    for mod, q in c.r.inlined:
        f = x.m.p.mods[mod] if mod in x.m.p.mods else None
        if f is None:
            return True
        for n in ast.walk(f.tree):
            if isinstance(n, ast.FunctionDef) and n.name == q.split(".")[-1]:
                for k in ast.walk(n):
                    if isinstance(k, ast.Attribute) and k.attr == name and isinstance(k.ctx, ast.Load):
                        return True
                    if isinstance(k, ast.Constant) and k.value == name:
                        return True
    return False


def record(x, label, rule, where, verdict, detail=()):
    x.S.done(label, rule, where, {True: "held", False: "violated", None: "undecided"}[verdict], list(detail)[:6])


def unchanged(after, before):
    if after is before:
        return True
    v, ds = compare(after, before)
    return {"same": True, "different": False}.get(v)


CACHES = {"functools.lru_cache", "functools.cache", "functools.cached_property"}


def caches(x, runs):
    """Decorated functions that keep results."""
    N = Names(x.m.p)
    found = []
    met = set()
    for c, _ in runs.values():
        met |= {(m, q.split(".")[-1]) for m, q in c.r.inlined}
    rule = "no method keeps results of earlier calls"
    n = 0
    for name, mod in x.m.p.mods.items():
        if name.startswith("spec_"):
            continue
        for cls in [k for k in ast.walk(mod.tree) if isinstance(k, ast.ClassDef)]:
            for f in cls.body:
                if not isinstance(f, ast.FunctionDef):
                    continue
                n += 1
                for d in f.decorator_list:
                    q = x.m.p.resolve_expr(name, d.func if isinstance(d, ast.Call) else d)
                    if q and q[0] == "ext" and q[1] in CACHES:
                        used = any(isinstance(k, ast.Attribute) and k.attr == f.name for c, _ in runs.values() for k in ast.walk(c.fn[0]))
                        if (name, f.name) in met or used:
                            found.append((False, "%s.%s keeps results (%s)" % (cls.name, f.name, q[1]), "%s:%s" % (os.path.relpath(mod.path, x.repo), f.lineno)))
    if found:
        for v, t, w in found:
            record(x, "no results kept: " + t.split(" ")[0], rule, w, v, [t])
    else:
        record(x, "no results kept", rule, "graphtransliterator", True)


# ------------------------------------------------------------------ arguments

def steady(x, label, name, args, roots, heap=None, stubs=(), but=(), whole=None):
    """Nothing in roots is changed by a call."""
    rule = "what the caller passed, and what a transliterator holds, is afterwards as it was before"
    try:
        c = Call(x, name, args, heap, stubs)
    except MemoryError:
        # too large to evaluate: the constructs met so far that write to what was given
        ls = ["%s (written in line %s)" % (lab, getattr(n, "lineno", 0)) for lab, ref, _ in roots for (o, w), n in x.m.ev.writes.items() if o is ref]
        x.m.ev.exits = []
        x.m.ev.stack = []
        if ls:
            record(x, label + ": nothing given is changed", rule, x.S.where(x.m.fn(name) if isinstance(name, str) else name), False, ls)
        raise
    verdict, det = True, []
    if whole is not None:
        c0 = c.ev.fz(whole, type("S", (), dict(heap=heap)))
        for f in c.finals(whole):
            for n in attributes(c0):
                v = True if n in but else unchanged(attr(f, n), attr(c0, n))
                if v is not True:
                    verdict = False if v is False or verdict is False else None
                    det.append("%s: %s" % (n, pp(attr(f, n))[:400]))
    for lab, ref, before in roots:
        if heap and ref in heap:
            before = c.ev.fz(ref, type("S", (), dict(heap=heap)))
        for f in c.finals(ref):
            v = unchanged(f, before)
            if v is None and c.written(ref):
                v = False
            if v is not True:
                verdict = False if v is False or verdict is False else None
                det.append("%s%s: %s" % (lab, c.written(ref), pp(f)[:400]))
    record(x, label + ": nothing given is changed", rule, x.S.where(c.fn), verdict, det)
    return c


def roots_of(args):
    return [(k, v, sym(v.args[0])) for k, v in args.items() if type(v) is T and v.op == "root"]


def attributes(c):
    """Names of the attributes of an object."""
    out = set()
    for t in [c] if c.op != "ite" else [v for _, v in leaves(c)]:
        if t.op == "obj":
            out.update(t.args[1])
    return sorted(out)


def held_by(x, gt, heap, but=()):
    """What a transliterator holds, as roots."""
    return [(k, root(k), sym(k)) for k in GIVEN if k not in but]


@obligation("arguments", "nothing passed by the caller is changed")
def _(x):
    m = x.m
    gt, heap = x.given()
    held = held_by(x, gt, heap)
    # construction, given all parts or only those that must be
    for lab, keys in (("all parts", None), ("main parts", ("tokens", "rules", "whitespace", "onmatch_rules", "metadata", "ignore_errors", "check_ambiguity"))):
        a = {k: v for k, v in m.given().items() if keys is None or k in keys}
        for cls in (GTNAME, "CoverageTransliterator"):
            fn = x.source("from graphtransliterator import %s\ndef driver(%s):\n    %s(%s)\n" % (cls, ", ".join(a), cls, ", ".join("%s=%s" % (k, k) for k in a)), "driver_new")
            c = steady(x, "%s given %s" % (cls, lab), fn, a, roots_of(a), stubs=[("ambiguity.check_for_ambiguity",)])
            x.S.obligations[-1]["where"] = x.S.where(m.fn(cls + ".__init__"))
    # constructors from settings
    opts = {"**": x.V("options", x.DS)}
    st = stubs_of(x)
    for n, a, without in (("from_dict", {"dict_settings": x.V("dict_settings", x.DS)}, "from_dict"),
                          ("from_easyreading_dict", {"easyreading_settings": x.V("easyreading_settings", x.DS)}, "from_easyreading_dict"),
                          ("load", {"settings": x.V("settings", x.DS)}, "load")):
        steady(x, n, GTNAME + "." + n, dict(a, **opts), roots_of(dict(a, **opts)), stubs=stubs_of(x, without))
    # hooks that are given what the caller passed, or objects of the transliterator
    for cls, kind, t in ((GTNAME + "Schema", "pre_load", x.DS), ("SettingsSchema", "pre_load", x.DS), ("EasyReadingSettingsSchema", "pre_load", x.DS), ("TransliterationRuleSchema", "pre_load", x.DS),
                         ("OnMatchRuleSchema", "pre_load", x.DS), ("schemas.WhitespaceSettingsSchema", "pre_load", x.DS), ("DirectedGraphSchema", "pre_load", x.DS), ("schemas.NodeDataSchema", "pre_load", x.DS),
                         ("schemas.EdgeDataSchema", "pre_load", x.DS),
                         ("schemas.NodeDataSchema", "pre_dump", m.NODE), ("schemas.EdgeDataSchema", "pre_dump", m.EDGE), ("TransliterationRuleSchema", "pre_dump", m.TR), ("OnMatchRuleSchema", "pre_dump", m.OM),
                         ("DirectedGraphSchema", "pre_dump", m.DG), (GTNAME + "Schema", "pre_dump", None)):
        k = m.cls(cls)
        drv, names = x.hook_driver(k, kind)
        if not names:
            record(x, "%s %s: nothing given is changed" % (cls, kind), "no hook", "%s:%s %s" % (os.path.relpath(k.mod.path, x.repo), k.node.lineno, k.name), True)
            continue
        if t is None:
            continue
        d = x.V("data", t)
        a = dict(schema=x.V("schema", m.inst(cls)), data=d, many=x.V("many", BOOL))
        before = sym("data")
        if t is m.DG:
            graph_dump(x, cls, drv, names, a, d, stubs=st)
            continue
        steady(x, "%s %s (%s)" % (cls, kind, ", ".join(names)), drv, a, [("data", d, before)], stubs=st)
        c, f = m.p.find_member(k, names[0])
        x.S.obligations[-1]["where"] = "%s:%s %s.%s" % (os.path.relpath(c.mod.path, x.repo), f.lineno, k.name, names[0])
    # compression
    a = dict(config=x.V("config", x.CONFIG), compression_level=x.V("compression_level", INT))
    steady(x, "compress_config", "compression.compress_config", a, roots_of(a))
    a = dict(compressed_config=x.V("compressed_config", None))
    steady(x, "decompress_config", "compression.decompress_config", a, roots_of(a))
    # use of a transliterator
    lev = dict(compression_level=x.V("compression_level", INT))
    for n in ("dump", "dumps"):
        steady(x, n, GTNAME + "." + n, dict(lev, self=gt), held, heap, stubs=st, whole=gt)
    for t in (STR, LS):
        a = dict(productions=x.V("productions", t))
        steady(x, "pruned_of (%s)" % ("one string" if t == STR else "several"), GTNAME + ".pruned_of", dict(a, self=gt), held + roots_of(a), heap, stubs=[(GTNAME,)], whole=gt)
    steady(x, "check_for_ambiguity", "ambiguity.check_for_ambiguity", dict(transliterator=gt), held, heap, whole=gt)
    tr = [(GTNAME + ".transliterate", STR, None, gt)]
    a = dict(transliteration_tests=x.V("transliteration_tests", D(None, None)))
    steady(x, "run_tests", "transliterators.Bundled.run_tests", dict(a, self=gt), held + roots_of(a), heap, stubs=tr, whole=gt)
    steady(x, "generate_yaml_tests", "transliterators.Bundled.generate_yaml_tests", dict(self=gt), held, heap, stubs=tr, whole=gt)
    # graphs
    a = dict(node=x.V("node", O(L(m.NODE))), edge=x.V("edge", O(D(INT, D(INT, m.EDGE)))), edge_list=x.V("edge_list", O(L(("tuple",)))))
    for cls, lab in (("DirectedGraph", "node, edge, edge_list"),):
        fn = x.source("from graphtransliterator import DirectedGraph\ndef driver(node, edge, edge_list):\n    DirectedGraph(node=node, edge=edge, edge_list=edge_list)\n", "driver_graph")
        steady(x, "DirectedGraph", fn, a, roots_of(a))
        x.S.obligations[-1]["where"] = x.S.where(m.fn("DirectedGraph.__init__"))
    a = dict(graph=x.V("graph given", m.DG))
    fn = x.source("from graphtransliterator.graphs import VisitLoggingDirectedGraph\ndef driver(graph):\n    VisitLoggingDirectedGraph(graph)\n", "driver_vgraph")
    steady(x, "VisitLoggingDirectedGraph", fn, a, [("graph", a["graph"], sym("graph given"))])
    x.S.obligations[-1]["where"] = x.S.where(m.fn("VisitLoggingDirectedGraph.__init__"))
    # last: the largest to evaluate
    a = dict(tokens=x.V("tokens given", LS), token_i=x.V("token_i", INT), match_all=x.V("match_all", BOOL))
    steady(x, "match_at", GTNAME + ".match_at", dict(a, self=gt), [("tokens", a["tokens"], sym("tokens given"))], heap)


def graph_dump(x, cls, drv, names, a, d, stubs):
    """Dumping may only put the list of edges in order."""
    c = Call(x, drv, a, None, stubs)
    verdict, det = True, []
    for f in c.finals(d):
        for part in ("node", "edge"):
            v = unchanged(attr(f, part), attr(sym("data"), part))
            if v is not True:
                verdict = False if v is False or verdict is False else None
                det.append("%s: %s" % (part, pp(attr(f, part))[:300]))
    k, fn = x.m.p.find_member(x.m.cls(cls), names[0])
    record(x, "%s pre_dump (%s): nothing but the order of edges is changed" % (cls, ", ".join(names)), "nodes and edges are as before", "%s:%s" % (os.path.relpath(k.mod.path, x.repo), fn.lineno), verdict, det)
