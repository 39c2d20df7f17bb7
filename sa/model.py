"""What is known of the repository's public interface: types of public values,
constructed instances, and entry points by their public names."""
import os

from .terms import *
from .terms import _raw
from .program import Program, Cls
from .evalr import Evaluator, State, IMM, Frame, Result

PKG = "graphtransliterator"
STR, INT, BOOL, FLOAT = "str", "int", "bool", "float"


def L(t):
    return ("list", t)


def O(t):
    return ("opt", t)


def D(k, v):
    return ("dict", k, v)


LS = L(STR)


class Missing(Exception):
    """A public name the properties are about is not there."""


class Model:
    def __init__(self, repo="/repo", extra=None):
        self.repo = repo
        self.p = Program(repo, extra)
        self.ev = Evaluator(self.p)
        self.types()

    # --------------------------------------------------------- names

    def resolve(self, dotted):
        """graphtransliterator[.mod].Class.member or .function, through re-exports."""
        parts = dotted.split(".")
        mod = PKG
        i = 1 if parts[0] == PKG else 0
        while i < len(parts) and mod + "." + parts[i] in self.p.mods and self.p.lookup(mod, parts[i]) in (None, ("mod", mod + "." + parts[i])):
            mod += "." + parts[i]
            i += 1
        r = self.p.lookup(mod, parts[i]) if i < len(parts) else ("mod", mod)
        if r is None or r[0] == "ext":
            raise Missing(dotted)
        i += 1
        if r[0] == "cls" and i < len(parts):
            m = self.p.find_member(r[1], parts[i])
            if m is None:
                raise Missing(dotted)
            return ("member", m[0], m[1])
        return r

    def cls(self, dotted):
        r = self.resolve(dotted)
        if r[0] != "cls":
            raise Missing(dotted)
        return r[1]

    def inst(self, dotted):
        return ("inst", self.cls(dotted).qual)

    def fn(self, dotted):
        r = self.resolve(dotted)
        if r[0] == "member":
            return r[2], r[1].mod, r[1]
        if r[0] == "def":
            return r[1], r[2], None
        raise Missing(dotted)

    # --------------------------------------------------------- types

    def types(self):
        TR = self.cls("TransliterationRule").qual
        OM = self.cls("OnMatchRule").qual
        WS = self.cls("WhitespaceRules").qual
        DG = self.cls("DirectedGraph").qual
        self.TR, self.OM, self.WS, self.DG = ("inst", TR), ("inst", OM), ("inst", WS), ("inst", DG)
        CLASS_ATTRS[TR] = dict(production=STR, prev_classes=O(LS), prev_tokens=O(LS), tokens=LS, next_tokens=O(LS), next_classes=O(LS), cost=FLOAT)
        CLASS_ATTRS[OM] = dict(prev_classes=LS, next_classes=LS, production=STR)
        CLASS_ATTRS[WS] = dict(default=STR, token_class=STR, consolidate=BOOL)
        node = ("dict", STR, None, "node")
        edge = ("dict", STR, None, "edge")
        cons = ("dict", STR, LS, "constraints")
        RECORDS["node"] = dict(type=STR, token=STR, rule_key=INT, accepting=BOOL, ordered_children=D(STR, L(INT)), token_children=D(STR, INT), rule_children=L(INT))
        RECORDS["edge"] = dict(token=STR, cost=FLOAT, constraints=cons)
        RECORDS["constraints"] = dict(prev_classes=LS, prev_tokens=LS, next_tokens=LS, next_classes=LS)
        RECORDS["rule"] = dict(production=STR, prev_classes=LS, prev_tokens=LS, tokens=LS, next_tokens=LS, next_classes=LS, cost=FLOAT)
        self.NODE, self.EDGE = node, edge
        CLASS_ATTRS[DG] = dict(node=L(node), edge=D(INT, D(INT, edge)), edge_list=L(("tuple",)))
        self.CTOR = dict(
            tokens=D(STR, ("set", STR)), rules=L(self.TR), whitespace=self.WS, onmatch_rules=O(L(self.OM)),
            metadata=O(D(STR, None)), ignore_errors=BOOL, check_ambiguity=BOOL,
            onmatch_rules_lookup=O(D(STR, D(STR, L(INT)))), tokens_by_class=O(D(STR, ("set", STR))),
            graph=O(self.DG), tokenizer_pattern=O(STR), graphtransliterator_version=O(STR),
        )
        gt = self.cls("GraphTransliterator").qual
        self.GT = ("inst", gt)

    # --------------------------------------------------------- running

    def var(self, name, t):
        """A symbolic value named name of type t."""
        s = sym(name)
        TYPES[s] = t
        TYPES[root(name)] = t
        return s if t in IMM else root(name)

    def call(self, dotted, heap=None, /, **args):
        node, mod, cls = self.fn(dotted)
        return self.ev.run(node, mod, cls, args, heap=heap)

    def given(self):
        """Constructor arguments with everything already derived."""
        t = dict(self.CTOR)
        for k in ("onmatch_rules_lookup", "tokens_by_class", "graph", "tokenizer_pattern", "graphtransliterator_version"):
            t[k] = t[k][1]
        r = {k: self.var(k, v) for k, v in t.items()}
        for k in ("onmatch_rules_lookup", "tokens_by_class", "graph", "tokenizer_pattern", "graphtransliterator_version"):
            FACTS[_raw("truthy", sym(k))] = True
        return r

    def construct(self, args, cls="GraphTransliterator"):
        """(reference, heap, Result) of a new instance."""
        c = self.cls(cls)
        st = State()
        ev = self.ev
        ev.begin()
        base = Frame(ev, c.mod, None, "<entry>")
        st.frames[base.id] = {}
        ev.stack.append(base)
        v = ev.instantiate(c, [], dict(args), st, c.node)
        r = Result(ev, v, st, [e for e in ev.exits if e.kind == "raise"])
        return v, dict(st.heap), r

    def stub(self, dotted, t=None, raises=None, slf=None):
        """From now on treat calls of a function (or constructions of a class)
        as terms of their arguments."""
        r = self.resolve(dotted)
        if raises and "." not in raises:
            try:
                raises = self.cls("exceptions." + raises).qual
            except Missing:
                pass
        if r[0] == "cls":
            c, node = self.p.find_member(r[1], "__init__")
            self.ev.stubs[node] = ("new " + c.qual, ("inst", c.qual), raises, None)
            return
        node, mod, cls = self.fn(dotted)
        self.ev.stubs[node] = (dotted, t, raises, slf)
