"""What is decided about the repository: each obligation compares what the
source does with a reference definition (specs/), or applies a rule to it."""
import ast
import os
import time

from .study import *
from .terms import _raw
from .model import *
from .program import Cls
from .evalr import TRACE

OBL = {}  # name -> (title, function)


def obligation(name, title):
    def dec(f):
        OBL[name] = (title, f)
        return f
    return dec


GTNAME = "GraphTransliterator"


class Ctx:
    def __init__(self, repo):
        self.S = Study(repo)
        self.m = self.S.m
        self.repo = repo
        m = self.m
        self.V = m.var
        self.DS = D(STR, None)
        RECORDS["white"] = dict(default=STR, token_class=STR, consolidate=BOOL)
        RECORDS["om"] = dict(prev_classes=LS, next_classes=LS, production=STR)
        RECORDS["graph"] = dict(node=L(m.NODE), edge=D(INT, D(INT, m.EDGE)), edge_list=L(("tuple",)))
        RECORDS["config"] = dict(
            tokens=D(STR, LS), rules=L(("dict", STR, None, "rule")), whitespace=("dict", STR, None, "white"),
            onmatch_rules=O(L(("dict", STR, None, "om"))), graph=("dict", STR, None, "graph"), metadata=D(STR, None),
        )
        RECORDS["settings"] = dict(tokens=D(STR, LS), rules=L(m.TR), whitespace=m.WS, onmatch_rules=L(m.OM), metadata=D(STR, None))
        self.CONFIG = ("dict", STR, None, "config")
        self.RULE = ("dict", STR, None, "rule")
        self.SET = ("dict", STR, None, "settings")

    # ------------------------------------------------------------- helpers

    def given(self, cls=GTNAME):
        """A transliterator constructed with all its parts given."""
        ref, heap, r = self.m.construct(self.m.given(), cls)
        heap.pop(TRACE, None)  # what is logged from then on
        return ref, heap

    def args(self, types):
        return {k: (v if isinstance(v, T) else self.V(k, v)) for k, v in types.items()}

    def both(self, label, rule, fn, got, want_fn, want, heap=None, observe=(), skip=(), only=None, modes=((),), strict=False):
        """Compare pieces of fn with those of the reference. Modes are lists of
        stubs: comparing with some functions taken as they are is enough to
        hold; a violation is one in some mode, and held in none."""
        m, S = self.m, self.S
        if isinstance(fn, str):
            fn = m.fn(fn)
        if isinstance(want_fn, str):
            want_fn = S.spec(want_fn)
        S.strict = strict
        keep = S.obligations
        best = None
        for stubs in modes:
            S.obligations = []
            m.ev.stubs.clear()
            for s in stubs:
                try:
                    m.stub(*s)
                except Missing:
                    pass
            p = S.pieces(fn, dict(got), heap=heap, observe=observe)
            q = S.pieces(want_fn, dict(want), heap=heap, observe=observe)
            S.compare(label, rule, p, q, S.where(fn), skip=skip, only=only)
            m.ev.stubs.clear()
            for o in S.obligations:
                if o["status"] != "held" and p.opaque:
                    o["not modelled"] = ["%s line %s" % (w, getattr(n, "lineno", "?")) for w, n in p.opaque[:5]]
            st = [o["status"] for o in S.obligations]
            score = 0 if all(x == "held" for x in st) else 1 if "violated" in st else 2
            if best is None or score < best[0]:
                best = (score, S.obligations)
            if score == 0:
                break
        S.obligations = keep + best[1]
        S.strict = False
        return best[0]

    def simple(self, name, sp, types, rule, rename=None, **kw):
        """A function against a reference with the same parameters, self and
        keyword arguments aside."""
        a = self.args(types)
        names = self.spec_params(sp)
        vals = [v for k, v in a.items() if k != "self" and not k.startswith("**")]
        q = dict(zip(names, vals))
        if "**" in a:
            q["**"] = a["**"]
        return self.both(name, rule, name, a, sp, q, **kw)

    def spec_params(self, sp):
        return [x.arg for x in self.S.spec(sp)[0].args.args]

    def source(self, text, name="driver"):
        """A function made from text, evaluated like those of specs/."""
        from .program import Mod
        m = Mod("spec_" + name, os.path.join(HERE, "specs", name + ".py"), text)
        self.m.p.mods[m.name] = m
        fs = [n for n in m.tree.body if isinstance(n, ast.FunctionDef)]
        return fs[-1], m, None

    def hooks(self, cls, kind):
        """Names of methods of a schema that marshmallow calls, in its order."""
        out = {}
        p = self.m.p
        for c in reversed(p.mro(cls)):
            if not isinstance(c, Cls):
                continue
            for n, f in c.members.items():
                if not isinstance(f, ast.FunctionDef):
                    continue
                out.pop(n, None)
                for d in f.decorator_list:
                    many = False
                    if isinstance(d, ast.Call):
                        many = any(k.arg == "pass_many" and isinstance(k.value, ast.Constant) and k.value.value for k in d.keywords)
                        orig = any(k.arg == "pass_original" for k in d.keywords)
                        d = d.func
                    r = p.resolve_expr(c.mod.name, d)
                    if r and r[0] == "ext" and r[1].endswith("." + kind) and r[1].startswith("marshmallow"):
                        out[n] = many
        return sorted(out.items())

    def hook_driver(self, cls, kind, many=False):
        """A function applying all hooks of a kind to data."""
        hs = self.hooks(cls, kind)
        if kind in ("pre_load", "pre_dump"):
            hs = sorted(hs, key=lambda h: not h[1])  # pass_many first
        else:
            hs = sorted(hs, key=lambda h: h[1]) if kind != "validates_schema" else hs
        t = "def driver(schema, data%s):\n" % (", many" if True else "")
        for n, pm in hs:
            a = "data, many=many" if pm else "data"
            if kind == "validates_schema":
                t += "    schema.%s(%s)\n" % (n, a)
            else:
                t += "    data = schema.%s(%s)\n" % (n, a)
        t += "    return %s\n" % ("None" if kind == "validates_schema" else "data")
        return self.source(t, "driver_%s_%s" % (cls.name, kind)), [n for n, _ in hs]

    def fields_of(self, cls):
        """{name: (kind, call, Cls)} of the fields declared by a schema."""
        out = {}
        p = self.m.p
        for c in reversed(p.mro(cls)):
            if not isinstance(c, Cls):
                continue
            for s in c.node.body:
                t = s.targets[0] if isinstance(s, ast.Assign) and len(s.targets) == 1 else s.target if isinstance(s, ast.AnnAssign) else None
                if isinstance(t, ast.Name) and isinstance(s.value, ast.Call):
                    r = p.resolve_expr(c.mod.name, s.value.func)
                    if r and r[0] == "ext" and r[1].startswith("marshmallow."):
                        out[t.id] = (r[1].split(".")[-1], s.value, c)
        return out

    def required_of(self, cls):
        out = []
        for n, (k, call, c) in self.fields_of(cls).items():
            if any(w.arg == "required" and isinstance(w.value, ast.Constant) and w.value.value is True for w in call.keywords):
                out.append(n)
        return out

    def hook(self, clsname, kind, sp, types, rule, modes=((),), alts=None, **kw):
        """Hooks of a schema against a reference of the same meaning."""
        cls = self.m.cls(clsname)
        if kind in ("post_load", "validates_schema"):
            required(*self.required_of(cls))
        drv, names = self.hook_driver(cls, kind)
        sch = self.V("schema", self.m.inst(clsname))
        a = self.args(types)
        pa = dict(schema=sch, many=self.V("many", BOOL))
        pa.update(a)
        label = "%s %s (%s)" % (clsname, kind, ", ".join(names) or "none")
        r = self.both(label, rule, drv, pa, sp, dict(zip(self.spec_params(sp), a.values())), modes=modes, **kw)
        w = "%s:%s %s %s" % (os.path.relpath(cls.mod.path, self.repo), cls.node.lineno, cls.name, kind)
        for n in names:
            c, f = self.m.p.find_member(cls, n)
            w = "%s:%s %s.%s" % (os.path.relpath(c.mod.path, self.repo), f.lineno, cls.name, n)
        for o in self.S.obligations:
            if o["obligation"].startswith(label):
                o["where"] = w
        return r


# ------------------------------------------------------------ transliterating

@obligation("tokenize", "tokenize against its definition")
def _(x):
    gt, heap = x.given()
    x.both("tokenize", "tokens, errors and log entries are those of the definition for every input", GTNAME + ".tokenize",
           dict(self=gt, input=x.V("input", STR)), "core.tokenize", dict(gt=gt, input=x.V("input", STR)), heap)


@obligation("match_at", "match_at against its definition")
def _(x):
    gt, heap = x.given()
    a = dict(token_i=x.V("token_i", INT), tokens=x.V("tokens", LS), match_all=x.V("match_all", BOOL))
    from . import feas

    def position(k, ks):
        # the position of what is taken from the heap is within the tokens, and after those of its rule
        if k.op == "idx" and k.args[0].op == "call" and k.args[0].args[0] == "heapmin" and is_const(k.args[1]) and cval(k.args[1]) == 4:
            out = [(0, {k: 1}), (0, {_raw("len", a["tokens"]): 1, k: -1}), (0, {k: 1, a["token_i"]: -1}), (0, {a["token_i"]: 1})]
            for l in ks:
                if l.op == "len" and l.args[0].op == "attr" and l.args[0].args[1] == "tokens" and k.args[0] in feas.subterms(l):
                    out.append((0, {k: 1, l: -1, a["token_i"]: -1}))
            return out
        return []

    feas.BOUNDS[:] = [position]
    x.both("match_at", "best-first search of the rule graph; every constraint on the last edge holds", GTNAME + ".match_at",
           dict(a, self=gt), "core.match_at", dict(a, gt=gt), heap)
    if any(o["status"] == "undecided" for o in x.S.obligations):
        contexts(x, gt, heap, a)


def contexts(x, gt, heap, a):
    """Where match_at is as defined but for the function that decides whether
    contexts are found, whether that function is."""
    m, S, V = x.m, x.S, x.V
    cls = m.cls(GTNAME)
    names = ["target_edge", "curr_node", "token_i", "tokens"]
    fs = [(c, f) for c in [cls] for f in c.members.values() if isinstance(f, ast.FunctionDef) and [p.arg for p in f.args.args][1:] == names and not f.decorator_list]
    if len(fs) != 1:
        return
    c, f = fs[0]
    fn = (f, c.mod, c)
    b = dict(target_edge=V("edge", m.EDGE), curr_node=V("node", m.NODE), token_i=V("at", INT), tokens=a["tokens"])
    spec = S.spec("core.applies")
    obs, pend = S.obligations, S.pending
    S.obligations, S.pending = [], []
    try:
        p = S.pieces(fn, dict(b, self=gt), heap)
        q = S.pieces(spec, dict(gt=gt, edge=b["target_edge"], node=b["curr_node"], at=b["token_i"], tokens=b["tokens"]), heap)
        own = S.pieces(S.spec("core.length_of_rule"), dict(gt=gt, node=b["curr_node"]), heap)["result"]
        care = and_(and_(isnone(p["raises"]), isnone(q["raises"])), and_(le(own, b["token_i"]), le(b["token_i"], _raw("len", b["tokens"]))))
        S.equal("contexts", "the contexts of a rule are found exactly where they are", p["result"], q["result"], S.where(fn), p.opaque, care)
        S.settle(time.time() + 70)
        bad = [o for o in S.obligations if o["status"] == "violated"]
        if not bad:
            return
        S.obligations, S.pending = [], []
        m.ev.instead[f] = spec
        x.both("match_at", "", GTNAME + ".match_at", dict(a, self=gt), "core.match_at", dict(a, gt=gt), heap)
        if all(o["status"] == "held" for o in S.obligations):
            for o in obs:
                if o["status"] == "undecided":
                    o.update(status="violated", where=bad[0]["where"], detail=bad[0].get("detail", []))
    finally:
        m.ev.instead.clear()
        S.obligations, S.pending = obs, pend


def calls_of(gt):
    return [(GTNAME + ".match_at", O(INT), None, gt), (GTNAME + ".tokenize", LS, "UnrecognizableInputTokenException", gt)]


@obligation("transliterate", "transliterate against its definition")
def _(x):
    gt, heap = x.given()
    a = dict(input=x.V("input", STR))
    x.both("transliterate", "rules, on-match insertions, errors and log entries are those of the definition", GTNAME + ".transliterate",
           dict(a, self=gt), "core.transliterate", dict(a, gt=gt), heap, modes=(calls_of(gt),))


@obligation("pruned_of", "pruned_of against its definition")
def _(x):
    gt, heap = x.given()
    for t in (STR, LS):
        a = dict(productions=x.V("productions", t))
        x.both("pruned_of (%s)" % ("one string" if t == STR else "several"), "only rules with another production are kept, with all else",
               GTNAME + ".pruned_of", dict(a, self=gt), "core.pruned_of", dict(a, gt=gt, check_ambiguity=x.V("check_ambiguity", BOOL)), heap, modes=([(GTNAME,)],))


# ------------------------------------------------------------------ derived

def derived(x, name, sp, argnames, also=()):
    m, S = x.m, x.S
    V = x.V
    args = dict(tokens=V("tokens", D(STR, ("set", STR))), rules=V("rules", L(m.TR)), whitespace=V("whitespace", m.WS), onmatch_rules=V("onmatch_rules", O(L(m.OM))), check_ambiguity=const(False))
    ref, heap, r = m.construct(args)
    fn = m.fn(GTNAME + "." + name)
    p = S.pieces(fn, dict(self=ref), heap)
    a, b = p["result"], [S.pieces(S.spec(s), {k: args[k] for k in argnames})["result"] for s in (sp,) + also]
    b = b if also else b[0]
    if name == "onmatch_rules_lookup":
        t = truthy(args["onmatch_rules"])
        a = assume(a, t.args[0], True) if t.op == "ite" else a
    S.equal("derived " + name, "what is generated follows from tokens and rules by definition", a, b, S.where(fn), p.opaque + list(r.opaque))
    S.functions |= set(r.inlined) | p.inlined


@obligation("derived_tokens_by_class", "generated table of tokens by class")
def _(x):
    derived(x, "tokens_by_class", "derive.tokens_by_class", ("tokens",), also=("derive.tokens_by_class_sorted",))


@obligation("derived_onmatch_rules_lookup", "generated lookup of on-match rules")
def _(x):
    derived(x, "onmatch_rules_lookup", "derive.onmatch_rules_lookup", ("tokens", "onmatch_rules"))


@obligation("derived_tokenizer_pattern", "generated tokenizer pattern")
def _(x):
    derived(x, "tokenizer_pattern", "derive.tokenizer_pattern", ("tokens",))


@obligation("derived_graph", "generated rule graph")
def _(x):
    derived(x, "graph", "derive.graph", ("rules",))


# -------------------------------------------------------------- compression

@obligation("compress", "compress_config against its definition")
def _(x):
    x.simple("compression.compress_config", "config.compress", dict(config=x.CONFIG, compression_level=INT), "every part is written where and as decompression reads it")


@obligation("decompress", "decompress_config against its definition")
def _(x):
    x.simple("compression.decompress_config", "config.decompress", dict(compressed_config=None), "every part is read from where and as compression writes it")


# ------------------------------------------------------------- constructors

def stubs_of(x, *without):
    m = x.m
    s = [(GTNAME,), (GTNAME + ".from_dict", m.GT), (GTNAME + ".from_yaml", m.GT), (GTNAME + ".from_easyreading_dict", m.GT),
         ("compression.decompress_config", x.DS), ("compression.compress_config", None)]
    return [t for t in s if t[0].split(".")[-1] not in without]


@obligation("from_dict", "from_dict against its definition")
def _(x):
    x.simple(GTNAME + ".from_dict", "build.from_dict_with_derived", {"dict_settings": x.DS, "**": x.V("options", x.DS)}, "validated settings and options reach the constructor", modes=(stubs_of(x, "from_dict"),))


@obligation("from_easyreading_dict", "from_easyreading_dict against its definition")
def _(x):
    x.simple(GTNAME + ".from_easyreading_dict", "build.from_easyreading_dict", {"easyreading_settings": x.DS, "**": x.V("options", x.DS)}, "converted settings and options reach from_dict", modes=(stubs_of(x), stubs_of(x, "from_dict")))


@obligation("from_yaml", "from_yaml against its definition")
def _(x):
    x.simple(GTNAME + ".from_yaml", "build.from_yaml", {"yaml_str": STR, "charnames_escaped": BOOL, "**": x.V("options", x.DS)}, "text read with the safe loader, unescaped if asked, and options reach from_easyreading_dict", modes=(stubs_of(x), stubs_of(x, "from_easyreading_dict")))


@obligation("from_yaml_file", "from_yaml_file against its definition")
def _(x):
    x.simple(GTNAME + ".from_yaml_file", "build.from_yaml_file", {"yaml_filename": STR, "**": x.V("options", x.DS)}, "UTF-8 text of the file and options reach from_yaml", modes=(stubs_of(x), stubs_of(x, "from_yaml")))


@obligation("load", "load against its definition")
def _(x):
    x.simple(GTNAME + ".load", "build.load", {"settings": x.DS, "**": x.V("options", x.DS)}, "options override settings, which stay as they are", modes=(stubs_of(x),))


@obligation("loads", "loads against its definition")
def _(x):
    x.simple(GTNAME + ".loads", "build.loads", {"settings": STR, "**": x.V("options", x.DS)}, "options override settings", modes=(stubs_of(x),))


@obligation("dump", "dump and dumps against their definitions")
def _(x):
    gt, heap = x.given()
    a = dict(compression_level=x.V("compression_level", INT))
    x.both("dump", "all that is serialized, compressed as asked", GTNAME + ".dump", dict(a, self=gt), "build.dump", dict(a, gt=gt), heap, modes=(stubs_of(x), stubs_of(x, "compress_config")))
    x.both("dumps", "text of what dump gives", GTNAME + ".dumps", dict(a, self=gt), "build.dumps", dict(a, gt=gt), heap,
           modes=(stubs_of(x) + [(GTNAME + ".dump", x.DS, "ValueError", gt)], stubs_of(x)))


# ------------------------------------------------------------------ schemas

@obligation("version", "pre-processing of serialized settings")
def _(x):
    x.hook(GTNAME + "Schema", "pre_load", "build.gt_pre_load", dict(data=x.DS), "refused exactly if of a later version, by numbers; compressed settings are decompressed and options kept", modes=(stubs_of(x),))


def required(*names):
    from .terms import FACTS
    for f in list(FACTS):
        if f.op == "in" and f.args[1] in (sym("data"), root("data")):
            del FACTS[f]
    for k in names:
        FACTS[_raw("in", const(k), sym("data"))] = True
        FACTS[_raw("in", const(k), root("data"))] = True


@obligation("schema_post_dump", "post-processing of what is dumped")
def _(x):
    required("tokens", "tokens_by_class")
    x.hook(GTNAME + "Schema", "post_dump", "build.gt_post_dump", dict(data=x.DS), "what is held as sets is written sorted")


@obligation("schema_post_load", "making a transliterator of loaded settings")
def _(x):
    x.hook(GTNAME + "Schema", "post_load", "build.gt_post_load", dict(data=x.DS), "every loaded part reaches the constructor; ambiguity checked only if asked", modes=(stubs_of(x),))


@obligation("schema_validates", "validation of serialized settings")
def _(x):
    x.hook(GTNAME + "Schema", "validates_schema", "build.gt_validates", dict(data=x.DS), "a lookup without on-match rules is refused")


@obligation("settings_validates", "cross-reference validation of settings")
def _(x):
    x.hook("SettingsSchema", "validates_schema", "build.settings_validates", dict(data=x.SET), "every token and class named in rules, on-match rules and whitespace is defined", skip=("logs", "logs when raising"))


@obligation("settings_post_load", "sorting and conversion of validated settings")
def _(x):
    x.hook("SettingsSchema", "post_load", "build.settings_post_load", dict(data=x.SET), "rules sorted by cost, stably; classes as sets")


@obligation("rule_hooks", "conversion of rules, on-match rules and whitespace")
def _(x):
    x.hook("TransliterationRuleSchema", "post_load", "derive.rule_of", dict(data=x.RULE), "each part of the settings is that part of the rule; cost as given, else computed")
    x.hook("TransliterationRuleSchema", "pre_dump", "build.rule_pre_dump", dict(data=x.m.TR), "every part but those that are none is written")
    x.hook("OnMatchRuleSchema", "post_load", "derive.onmatch_rule_of", dict(data=("dict", STR, None, "om")), "each part of the settings is that part of the on-match rule")
    x.hook("schemas.WhitespaceSettingsSchema", "post_load", "derive.whitespace_of", dict(data=("dict", STR, None, "white")), "each part of the settings is that part of the whitespace rules")


@obligation("graph_hooks", "conversion of graphs")
def _(x):
    x.hook("schemas.NodeDataSchema", "pre_dump", "build.node_pre_dump", dict(data=x.m.NODE), "all that is not empty is written, including zero")
    x.hook("DirectedGraphSchema", "pre_dump", "build.graph_pre_dump", dict(data=x.m.DG), "edges sorted")
    x.hook("DirectedGraphSchema", "post_load", "build.graph_post_load", dict(data=x.DS), "graph of a copy of the data", modes=([("DirectedGraph",)], ()))


# ------------------------------------------------------------- easy reading

@obligation("easyreading", "conversion of easy reading settings")
def _(x):
    x.simple(GTNAME + ".from_easyreading_dict", "build.from_easyreading_full", {"easyreading_settings": x.DS, "**": x.V("options", x.DS)}, "each part of the notation is that part of the settings", modes=(stubs_of(x),))


@obligation("unescape", "named characters")
def _(x):
    x.simple(GTNAME + ".from_yaml", "build.from_yaml", {"yaml_str": STR, "charnames_escaped": BOOL, "**": x.V("options", x.DS)}, "escapes naming a character become that character", modes=(stubs_of(x),))


# ---------------------------------------------------------------- ambiguity

@obligation("ambiguity", "check_for_ambiguity against its definition")
def _(x):
    gt, heap = x.given()
    x.both("check_for_ambiguity", "raised exactly if two rules of equal cost may match the same tokens, and no less costly rule matches all of those",
           "ambiguity.check_for_ambiguity", dict(transliterator=gt), "ambiguity.check", dict(gt=gt), heap, skip=("logs", "logs when raising"))


# ------------------------------------------------------------------- graphs

@obligation("graph_edits", "add_edge and add_node against their definitions")
def _(x):
    g = x.V("g", x.m.DG)
    a = dict(head=x.V("head", None), tail=x.V("tail", None), edge_data=x.V("edge_data", None))
    x.both("add_edge", "succeeds completely or changes nothing", "DirectedGraph.add_edge", dict(a, self=g), "graphs.add_edge", dict(a, g=g), observe=[("graph", g)])
    n = x.V("node_data", None)
    x.both("add_node", "succeeds completely or changes nothing", "DirectedGraph.add_node", dict(self=g, node_data=n), "graphs.add_node", dict(g=g, node_data=n), observe=[("graph", g)])


def visit_types(x):
    m = x.m
    i = m.inst
    CLASS_ATTRS[i("VisitLoggingDirectedGraph")[1]] = dict(node=i("VisitLoggingList"), edge=i("VisitLoggingDict"), edge_list=L(("tuple",)))
    CLASS_ATTRS[i("VisitLoggingList")[1]] = dict(data=L(m.NODE), visited=("set", INT))
    CLASS_ATTRS[i("VisitLoggingDict")[1]] = dict(data=D(INT, i("VisitLoggingDict")), visited=("set", INT))


@obligation("graph_coverage", "coverage of graphs")
def _(x):
    visit_types(x)
    vg = x.V("vg", x.m.inst("VisitLoggingDirectedGraph"))
    a = dict(raise_exception=x.V("raise_exception", BOOL))
    x.both("graph coverage", "complete exactly if every node and edge was visited", "VisitLoggingDirectedGraph.check_coverage", dict(a, self=vg), "graphs.graph_covered", dict(a, graph=vg), skip=("logs", "logs when raising"))


@obligation("onmatch_coverage", "coverage of on-match rules")
def _(x):
    ref, heap = x.given("CoverageTransliterator")
    a = dict(visited=x.V("visited", ("set", INT)), raise_exception=x.V("raise_exception", BOOL), gt=ref)
    p = x.both("on-match coverage", "complete exactly if every on-match rule was visited", x.S.spec("graphs.drive_onmatch"), a, "graphs.want_onmatch", a, heap, skip=("logs", "logs when raising"))


# ----------------------------------------------------------------- commands

def cli_stubs(x, *without):
    m = x.m
    s = [(GTNAME,), (GTNAME + ".from_dict", m.GT), (GTNAME + ".from_yaml", m.GT), (GTNAME + ".from_yaml_file", m.GT), (GTNAME + ".loads", m.GT),
         ("cli.load_transliterator", m.GT), (GTNAME + ".transliterate", STR), (GTNAME + ".dumps", STR), ("transliterators.Bundled.generate_yaml_tests", STR)]
    return [t for t in s if t[0].split(".")[-1] not in without]


@obligation("cli", "commands against their definitions")
def _(x):
    for n in ("transliterate", "dump", "dump_tests", "generate_tests", "test", "list_bundled", "make_json"):
        fn = x.m.fn("cli." + n)
        a = {p.arg: x.V(p.arg, None) for p in fn[0].args.args}
        x.both("command " + n, "outputs what the library gives for the same arguments", fn, a, "cli." + n, a, modes=(cli_stubs(x), cli_stubs(x, "load_transliterator")))


@obligation("cli_load", "load_transliterator against its definition")
def _(x):
    a = {"source": x.V("source", None), "**": x.V("kwargs", x.DS)}
    x.both("load_transliterator", "source and options reach the constructor for the format", "cli.load_transliterator", a, "cli.load", a, modes=(cli_stubs(x, "load_transliterator"),))


# ------------------------------------------------------------------ bundled

@obligation("run_tests", "run_tests against its definition")
def _(x):
    x.m.ev.stub_writes = True
    gt, heap = x.given()
    tt = x.V("transliteration_tests", D(None, None))
    x.both("run_tests", "every test compared; raises, however Python is run", "transliterators.Bundled.run_tests", dict(self=gt, transliteration_tests=tt), "bundled.run_tests", dict(gt=gt, transliteration_tests=tt),
           heap, modes=([(GTNAME + ".transliterate", STR, None, gt)],), strict=True)


@obligation("generate_tests", "generate_yaml_tests against its definition")
def _(x):
    x.m.ev.stub_writes = True
    gt, heap = x.given()
    x.both("generate_yaml_tests", "a test for every rule and on-match rule, with its own output", "transliterators.Bundled.generate_yaml_tests", dict(self=gt), "bundled.generate", dict(gt=gt),
           heap, modes=([(GTNAME + ".transliterate", STR, None, gt)],))


# ------------------------------------------------ constructor and properties

AT = dict(new="GraphTransliterator.__init__", defaults="GraphTransliterator.__init__", setter="GraphTransliterator.ignore_errors", report="GraphTransliterator.transliterate",
          report_failed="GraphTransliterator.transliterate", list="VisitLoggingList", dict="VisitLoggingDict", graph_logging="VisitLoggingDirectedGraph", coverage_new="CoverageTransliterator.__init__", coverage_clear="CoverageTransliterator.clear_visited", coverage_clear_graph="CoverageTransliterator.clear_visited", graph_clear_all="VisitLoggingDirectedGraph.clear_visited",
          check_coverage="CoverageTransliterator.check_coverage", graph="DirectedGraph.__init__")


def place(x, name):
    """Where what a driver uses is defined."""
    k = AT.get(name) or AT.get(name.split("_")[0])
    try:
        if "." in k:
            return x.S.where(x.m.fn(k))
        c = x.m.cls(k)
        return "%s:%s %s" % (os.path.relpath(c.mod.path, x.repo), c.node.lineno, k)
    except Exception:
        return None


def drives(x, *names, heap=None, rule="", modes=((),), **types):
    for n in names:
        k0 = len(x.S.obligations)
        fn, want = x.S.spec("drive.drive_" + n), x.S.spec("drive.want_" + n)
        a = x.args(types)
        a = {p.arg: a[p.arg] for p in fn[0].args.args}
        x.both("use of " + n.replace("_", " "), rule, fn, a, want, a, heap, modes=modes, skip=("logs", "logs when raising"))
        w = place(x, n)
        for o in x.S.obligations[k0:]:
            o["where"] = w or o["where"]


@obligation("constructor", "what is given to the constructor is what the transliterator holds")
def _(x):
    a = x.m.given()
    amb = [("ambiguity.check_for_ambiguity", None, None, None)]
    drives(x, "new", rule="every part given is held as it is", modes=(amb,), **a)
    drives(x, "defaults", rule="documented defaults", **a)
    gt, heap = x.given()
    drives(x, "setter", heap=heap, rule="the setting is read as it was set last", gt=gt, value=x.V("value", BOOL))


@obligation("check_on_construction", "ambiguity is checked exactly when asked")
def _(x):
    a = x.m.given()
    amb = [("ambiguity.check_for_ambiguity", None, "AmbiguousTransliterationRulesException", None)]
    m, S = x.m, x.S
    for s in amb:
        m.stub(*s)
    fn = S.spec("drive.drive_new")
    p = S.pieces(fn, a)
    e = p["raises"]
    c = truthy(a["check_ambiguity"])
    S.equal("constructor: not checked when not asked", "check_ambiguity=False never raises", assume(e, c.args[0], False), NONE, S.where(m.fn(GTNAME + ".__init__")))
    t = assume(e, c.args[0], True)
    from .diff import has
    ok = t.op == "ite" and any(has_call(t.args[0], "!ambiguity.check_for_ambiguity") for _ in [0])
    S.done("constructor: checked when asked", "check_ambiguity=True checks every rule given, whatever else is given", S.where(m.fn(GTNAME + ".__init__")), "held" if ok else "violated" if t is NONE else "undecided", [] if ok else ["raises: " + pp(t)[:300]])
    m.ev.stubs.clear()


def has_call(t, name):
    st, seen = [t], set()
    while st:
        y = st.pop()
        if type(y) is not T or y in seen:
            continue
        seen.add(y)
        if y.op == "call" and y.args[0] == name:
            return True
        st.extend(y.args)
    return False


@obligation("report", "report of the last transliteration")
def _(x):
    gt, heap = x.given()
    drives(x, "report", heap=heap, rule="the report is that of the call", modes=(calls_of(gt),), gt=gt, input=x.V("input", STR))
    drives(x, "report_failed", heap=heap, rule="the report is that of the last call, as far as it got", modes=(calls_of(gt),), gt=gt, earlier=x.V("earlier", STR), input=x.V("input", STR))


@obligation("visit_logging", "containers that log visits")
def _(x):
    m = x.m
    t = dict(nodes=x.V("nodes", L(m.NODE)), i=x.V("i", INT), edges=x.V("edges", D(INT, D(INT, m.EDGE))), k=x.V("k", INT), graph=x.V("graph", m.DG), h=x.V("h", INT), t=x.V("t", INT))
    drives(x, "list_item", "list_other", "list_clear", "dict_item", "dict_other", "dict_clear", "graph_logging", rule="taking an item is a visit, nothing else is", **t)


@obligation("graph_new", "making a graph")
def _(x):
    m = x.m
    t = dict(node=x.V("node", O(L(m.NODE))), edge=x.V("edge", O(D(INT, D(INT, m.EDGE)))), edge_list=x.V("edge_list", O(L(("tuple",)))))
    drives(x, "graph", "graph_edges_only", rule="a graph has the nodes and edges given and lists each edge", **t)


@obligation("coverage_transliterator", "coverage of transliterators")
def _(x):
    visit_types(x)
    m = x.m
    a = m.given()
    a.pop("check_ambiguity")
    drives(x, "coverage_new", rule="all that is given is held, and nothing is marked as visited", **a)
    gt, heap = x.given("CoverageTransliterator")
    t = dict(i=x.V("i", INT), h=x.V("h", INT), k=x.V("k", INT))
    drives(x, "coverage_clear", heap=heap, rule="clearing forgets all visits", gt=gt, **t)
    drives(x, "coverage_clear_graph", heap=heap, rule="clearing forgets all visits, with or without on-match rules", gt=gt, i=t["i"], h=t["h"])
    vg = x.V("vg", m.inst("VisitLoggingDirectedGraph"))
    drives(x, "graph_clear_all", rule="clearing forgets all visits", vg=vg)
    s = [("VisitLoggingDirectedGraph.check_coverage", BOOL, "IncompleteGraphCoverageException", None), ("CoverageTransliterator.check_onmatchrules_coverage", BOOL, "IncompleteOnMatchRulesCoverageException", None)]
    drives(x, "check_coverage", heap=heap, rule="complete if graph and on-match rules are", modes=(s,), gt=gt, raise_exception=x.V("raise_exception", BOOL))


# ------------------------------------------------- loading of bundled ones

BUNDLED = "transliterators.Bundled"


def bundled_stubs(x):
    m = x.m
    return [(GTNAME + ".from_yaml_file", m.GT), (GTNAME + ".loads", m.GT), ("ambiguity.check_for_ambiguity", None, "AmbiguousTransliterationRulesException", None),
            (BUNDLED + "._module_dir", STR), (BUNDLED + "._module_name", STR)]


def without(t, name):
    """t with keyword arguments of that name left out."""
    memo = {}

    def go(t):
        if type(t) is not T:
            return t
        r = memo.get(t)
        if r is None:
            if t.op == "call" and any(type(a) is T and a.op == "kw" and a.args[0] == name for a in t.args):
                r = _raw("call", *[go(a) for a in t.args if not (type(a) is T and a.op == "kw" and a.args[0] == name)])
                if t in TYPES:
                    TYPES[r] = TYPES[t]
            elif not t.args or not any(type(a) is T for a in t.args):
                r = t
            elif t.op == "ite":
                r = ite(cond_atom(go(t.args[0])), go(t.args[1]), go(t.args[2]))
            elif t.op in BINDERS:
                r = map_binder(t, go)
            else:
                r = mk(t.op, *[go(a) if type(a) is T else a for a in t.args])
            memo[t] = r
        return r

    return go(t)


@obligation("bundled", "bundled transliterators are what their files say")
def _(x):
    m, S = x.m, x.S
    visit_types(x)
    types = dict(b=x.V("b", m.inst(BUNDLED)), check_ambiguity=x.V("check_ambiguity", BOOL), ignore_errors=x.V("ignore_errors", BOOL), options=x.V("options", x.DS))
    for n in ("yaml", "yaml_default", "yaml_setting", "json", "json_default", "json_setting"):
        for s in bundled_stubs(x):
            try:
                m.stub(*s)
            except Missing:
                pass
        fn, want = S.spec("bundled.drive_" + n), S.spec("bundled.want_" + n)
        a = {p.arg: types[p.arg] for p in fn[0].args.args}
        p, q = S.pieces(fn, a, {}), S.pieces(want, a, {})
        w = S.where(m.fn(BUNDLED + (".from_YAML" if "yaml" in n else ".from_JSON")))
        ign = types["ignore_errors"]
        got, exp = without(p["result"], "coverage"), without(q["result"], "coverage")
        if n.endswith("setting"):
            exp = [exp, ign]
        S.equal("bundled from %s" % n.replace("_", ", "), "options reach the function that reads the file, and what it gives is held", got, exp, w, p.opaque)
        if "ambiguity" in str(list(a)):
            c = truthy(types["check_ambiguity"])
            e = assume(p["raises"], c.args[0], False)
            S.done("bundled from %s: not checked when not asked" % n.replace("_", ", "), "check_ambiguity=False checks nothing of its own", w, "undecided" if has_call(e, "!ambiguity.check_for_ambiguity") else "held")
        S.functions |= p.inlined
        m.ev.stubs.clear()
    for n in ("new_yaml", "new_json"):
        fn, want = S.spec("bundled.drive_" + n), S.spec("bundled.want_" + n)
        a = {p.arg: types[p.arg] for p in fn[0].args.args}
        k = len(S.obligations)
        x.both("bundled " + n.replace("_", ", "), "options of new() are passed on", fn, a, want, a, {}, modes=(bundled_stubs(x),), only=("result",))
        for o in S.obligations[k:]:
            o["where"] = S.where(m.fn(BUNDLED + ".new"))


@obligation("bundled_classes", "every bundled transliterator takes options")
def _(x):
    m, S = x.m, x.S
    visit_types(x)
    base = m.cls(BUNDLED)
    found = [c for c in m.p.classes.values() if c is not base and m.p.is_subclass(c, base) and ".transliterators." in c.qual]
    for c in sorted(found, key=lambda c: c.qual):
        pkg = c.mod.name
        text = "from %s import %s\n\n\ndef driver(ignore_errors, check_ambiguity):\n    b = %s(ignore_errors=ignore_errors, check_ambiguity=check_ambiguity)\n    return b.tokens, b.rules\n" % (pkg, c.name, c.name)
        fn = x.source(text, "bundled_" + c.name)
        for s in bundled_stubs(x):
            m.stub(*s)
        a = dict(check_ambiguity=x.V("check_ambiguity", BOOL), ignore_errors=x.V("ignore_errors", BOOL))
        p = S.pieces(fn, a, {})
        r = without(p["result"], "coverage")
        calls_ = [t for t in subterms_of(r) if t.op == "call" and t.args[0] in ("=" + GTNAME + ".from_yaml_file", "=" + GTNAME + ".loads")]
        w = "%s:%s %s" % (os.path.relpath(c.mod.path, x.repo), c.node.lineno, c.name)
        if not calls_:
            st = "undecided"
            d = [pp(r)[:300]]
        else:
            kws = [{k.args[0]: k.args[1] for k in t.args if type(k) is T and k.op == "kw"} for t in calls_]
            ok = all(k.get("ignore_errors") is a["ignore_errors"] and k.get("check_ambiguity") is a["check_ambiguity"] for k in kws)
            bad = any(k.get(n) is None or k.get(n).op == "c" for k in kws for n in a)
            st, d = ("held", []) if ok else ("violated" if bad and not any(k.op == "kw" and k.args[0] == "**" for t in calls_ for k in t.args if type(k) is T) else "undecided", [str(sorted(k)) for k in kws])
        S.done("options of %s" % c.name, "options given to a bundled transliterator reach what reads its file", w, st, d)
        S.functions |= p.inlined
        m.ev.stubs.clear()


def subterms_of(t):
    from .feas import subterms
    return subterms(t)


@obligation("bundled_tests", "tests of bundled transliterators")
def _(x):
    visit_types(x)
    b = x.V("b", x.m.inst(BUNDLED))
    s = [(BUNDLED + "._module_dir", STR), (BUNDLED + "._module_name", STR)]
    x.both("load_yaml_tests", "all tests of the file, as text", BUNDLED + ".load_yaml_tests", dict(self=b), "bundled.tests_of", dict(gt=b), {}, modes=(s,))
    s = s + [(BUNDLED + ".load_yaml_tests", D(STR, STR), None, None), (BUNDLED + ".run_tests", None, "AssertionError", None)]
    x.both("run_yaml_tests", "runs all tests of the file", BUNDLED + ".run_yaml_tests", dict(self=b), "bundled.run_yaml_tests", dict(gt=b), {}, modes=(s,), strict=True)
