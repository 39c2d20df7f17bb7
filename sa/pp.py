"""Multi-line printing of terms, for people."""
from .terms import show, T


def pp(t, ind=0, seen=None, lim=400):
    out = []
    names = {}
    count = {}

    def walk(x):
        if type(x) is not T:
            return
        count[x] = count.get(x, 0) + 1
        if count[x] == 1:
            for a in x.args:
                walk(a)

    walk(t)

    def ref(x, ind):
        s = show(x, 0, 6)
        if len(s) < 90 and "..." not in s:
            return s
        if x in names:
            return names[x]
        if x.op == "ite" or len(s) >= 90 or "..." in s:
            if count.get(x, 0) > 1:
                names[x] = "#%d" % len(names)
                pre = names[x] + "="
            else:
                pre = ""
            return pre + block(x, ind)
        return s

    def block(x, ind):
        p = "\n" + "  " * (ind + 1)
        if x.op == "ite":
            return "IF " + ref(x.args[0], ind + 1) + p + ref(x.args[1], ind + 1) + "\n" + "  " * ind + "ELSE" + p + ref(x.args[2], ind + 1)
        if x.op in ("loopout", "loopexit"):
            n = x.args[2]
            lab = x.args[3]
            r = "%s@%s h%d" % (x.op, getattr(lab, "args", [lab])[0] if type(lab) is T else lab, x.args[0])
            for i, a in enumerate(x.args[4:4 + n]):
                r += p + "init%d: " % i + ref(a, ind + 1)
            r += p + "kind: " + ref(x.args[4 + n], ind + 1)
            for i, a in enumerate(x.args[5 + n:5 + 2 * n]):
                r += p + "next%d: " % i + ref(a, ind + 1)
            if x.op == "loopout":
                r += p + "out: " + ref(x.args[-1], ind + 1)
            return r
        r = x.op
        for a in x.args:
            r += p + (ref(a, ind + 1) if type(a) is T else repr(a))
        return r

    return ref(t, ind)
