"""Comparing what a function of the repository does with its definition."""
import ast
import json
import os
import select
import signal
import time

from .terms import *
from .terms import _raw
from .model import *
from .model import Missing
from .evalr import TRACE, Stuck, Result
from .diff import compare, Diff, STR_
from .shape import refute
from .pp import pp

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Pieces(dict):
    """What can be observed of a call: label -> term."""


class Study:
    def __init__(self, repo="/repo"):
        d = os.path.join(HERE, "specs")
        extra = {"spec_" + f[:-3]: os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".py")}
        self.m = Model(repo, extra)
        self.repo = repo
        self.obligations = []  # dicts
        self.violations = []
        self.notes = []
        self.functions = set()
        self.pending = []  # what is undecided, to be settled
        self.strict = False  # whether asserting differs from raising
        self.t0 = time.time()

    # ------------------------------------------------------------ running

    def pieces(self, fn, args, heap=None, observe=(), cls=None):
        """Evaluate fn (node, mod, cls) and collect what can be observed."""
        ev = self.m.ev
        node, mod, c = fn
        r = ev.run(node, mod, c, args, heap=heap)
        return self.collect(r, observe)

    def collect(self, r, observe=()):
        p = Pieces()
        p.result = r
        p["raises"] = r.exc
        okay = isnone(r.exc)
        p["result"] = constrain(r.value, okay)
        p["logs"] = constrain(r.trace(), okay)
        for label, ref in observe:
            p[label] = constrain(r.content(ref), okay)
        if r.raises:
            for label, ref in [("logs", TRACE)] + list(observe):
                v = NONE
                for e in reversed(r.raises):
                    c = e.state.heap.get(ref)
                    c = lst() if c is None and ref is TRACE else self.m.ev.fz(ref, e.state)
                    v = ite(e.guard, c, v)
                # only matters where something is raised
                p[label + " when raising"] = constrain(v, not_(isnone(r.exc))) if v.op == "ite" else v
        if not self.strict:
            m = {_raw("exc", "assert"): _raw("exc", "AssertionError")}
            for k in p:
                p[k] = subst(p[k], m)
        p.opaque = list(r.opaque)
        p.inlined = set(r.inlined)
        return p

    def spec(self, name):
        mod, fn = name.split(".")
        m = self.m.p.mods["spec_" + mod]
        return m.defs[fn], m, None

    # --------------------------------------------------------- obligations

    def where(self, fn):
        node, mod, cls = fn
        return "%s:%s %s" % (os.path.relpath(mod.path, self.repo), node.lineno, (cls.name + "." if cls else "") + getattr(node, "name", "<lambda>"))

    def compare(self, what, rule, got, want, where, only=None, skip=(), opaque=()):
        """Record the comparison of each piece."""
        okay = TRUE
        if isinstance(got, Pieces) and isinstance(want, Pieces):
            okay = and_(isnone(got["raises"]), isnone(want["raises"]))
        for k in sorted(set(got) | set(want)):
            if only is not None and k not in only or k in skip:
                continue
            self.equal("%s: %s" % (what, k), rule, got.get(k), want.get(k), where, got.opaque if isinstance(got, Pieces) else opaque,
                       TRUE if k == "raises" else and_(not_(isnone(got["raises"])), not_(isnone(want["raises"]))) if k.endswith(" when raising") and okay is not TRUE else okay)
        if isinstance(got, Pieces):
            self.functions |= got.inlined

    def equal(self, what, rule, a, b, where, opaque=(), care=TRUE):
        """a (list of alternatives b) must be the same term (where care holds)."""
        alts = b if isinstance(b, (list, tuple)) else [b]
        a = NONE if a is None else a
        best = None
        for x in alts:
            x = NONE if x is None else x
            v, ds = compare(a, x)
            if v == "same":
                return self.done(what, rule, where, "held")
            if best is None or (v == "different") > (best[0] == "different") or v == best[0] and len(ds) < len(best[1]):
                best = (v, ds)
            if v == "unknown":
                best = (v, ds) if best is None or best[0] != "unknown" else best
        # unknown for any alternative means that nothing is concluded
        vs = [best] if len(alts) == 1 else [compare(a, NONE if x is None else x) for x in alts]
        if any(v == "unknown" for v, _ in vs) or opaque and os.environ.get("SA_STRICT") is None and opaque_inside(a):
            ds = [d for v, ds in vs for d in ds if v == "unknown"] or best[1]
            alts = [NONE if x is None else x for x, (v, _) in zip(alts, vs) if v == "unknown"]
            self.done(what, rule, where, "undecided", [d.text() for d in ds[:4]])
            if alts:
                self.pending.append((self.obligations[-1], a, alts, care))
            return
        return self.done(what, rule, where, "violated", [d.text() for d in best[1][:4]])

    def settle(self, until, jobs=3, each=60):
        """Tell apart by shapes what is not decided otherwise."""
        todo = [q for q in self.pending if q[0]["status"] == "undecided" and any(q[0] is o for o in self.obligations)]
        running = {}
        self.pending = []
        while todo or running:
            while todo and len(running) < jobs and time.time() < until:
                o, a, alts, care = todo.pop(0)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    text = b""
                    try:
                        text = json.dumps(refuted(a, alts, care, min(each, until - time.time()))).encode()
                    except BaseException:
                        pass
                    try:
                        os.write(w, text[:60000])
                    finally:
                        os._exit(0)
                os.close(w)
                running[r] = [o, pid, b"", time.time()]
            if not running:
                return
            for r in select.select(list(running), [], [], 1)[0]:
                b = os.read(r, 1 << 16)
                if b:
                    running[r][2] += b
                    continue
                o, pid, buf, _ = running.pop(r)
                os.close(r)
                os.waitpid(pid, 0)
                text = json.loads(buf) if buf else None
                if text:
                    o["status"], o["detail"] = "violated", [text]
            for r in list(running):
                o, pid, buf, t = running[r]
                if time.time() > min(t + each, until) + 10:
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    os.close(r)
                    del running[r]

    def done(self, what, rule, where, status, detail=()):
        o = dict(obligation=what, rule=rule, where=where, status=status)
        if detail:
            o["detail"] = list(detail)
        self.obligations.append(o)
        return status


def refuted(a, alts, care, seconds):
    """Whether a is, for some shape of the data, none of alts."""
    r = None
    for b in alts:
        r = refute(a, b, care, seconds / len(alts))
        if r is None:
            return None
    return r and r.text()


def opaque_inside(t):
    from .diff import has
    return has(t, {"opaque"})
