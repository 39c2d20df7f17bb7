"""Runs obligations in child processes, each with limits of its own."""
import json
import os
import resource
import select
import signal
import sys
import time
import traceback

from .model import Missing


def altered(fn, repo, x, t0, limit):
    """Undecided obligations that are held if one place of the source, where
    part of what is given is lost (by rounding, changing case, slicing), is
    taken to change nothing: by definition it is all used as it is."""
    from .obligations import Ctx

    places = list(x.m.ev.lossy.items())
    took = time.time() - t0
    for k, what in places[:8]:
        und = [o for o in x.S.obligations if o["status"] == "undecided"]
        if not und or time.time() - t0 + took > limit * 0.5:
            return
        y = Ctx(repo)
        y.m.ev.transparent = k
        try:
            fn(y)
        except (Missing, MemoryError, RecursionError):
            continue
        held = {o["obligation"] for o in y.S.obligations if o["status"] == "held"}
        for o in und:
            if o["obligation"] in held:
                o["status"], o["detail"] = "violated", ["as defined but for " + what]


def child(fn, repo, w, mem, limit):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    except (ValueError, OSError):
        pass
    sys.setrecursionlimit(100000)
    out = {"missing": [], "obligations": [], "functions": [], "error": None}
    import threading

    threading.stack_size(1 << 29)

    def go():
        from .obligations import Ctx

        x = None
        t0 = time.time()
        try:
            x = Ctx(repo)
            try:
                fn(x)
                altered(fn, repo, x, t0, limit)
            finally:
                x.S.settle(t0 + limit - 25)
        except Missing as e:
            out["missing"].append(str(e))
        except MemoryError:
            out["error"] = "out of memory"
        except BaseException:
            out["error"] = traceback.format_exc()[-1500:]
        if x is not None:
            out["obligations"] = x.S.obligations
            out["functions"] = sorted("%s" % (f,) for f in x.S.functions)
            out["notes"] = x.S.notes

    t = threading.Thread(target=go)
    t.start()
    t.join()
    try:
        data = json.dumps(out, default=str).encode()
        while data:
            n = os.write(w, data)
            data = data[n:]
    finally:
        os._exit(0)


def run(fns, repo, jobs=8, limit=240, mem=4 << 30, total=None):
    """fns: list of (name, function). Returns {name: outcome}."""
    todo = list(fns)
    running = {}
    res = {}
    t0 = time.time()
    while todo or running:
        while todo and len(running) < jobs:
            name, fn = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                child(fn, repo, w, mem, limit)
            os.close(w)
            running[r] = [name, pid, time.time(), b""]
        ready, _, _ = select.select(list(running), [], [], 1)
        for r in ready:
            b = os.read(r, 1 << 16)
            if b:
                running[r][3] += b
                continue
            name, pid, t, buf = running.pop(r)
            os.close(r)
            os.waitpid(pid, 0)
            try:
                d = json.loads(buf)
            except ValueError:
                d = {"obligations": [], "functions": [], "missing": [], "error": "no result"}
            d["wall_s"] = round(time.time() - t, 2)
            res[name] = d
        for r in list(running):
            name, pid, t, buf = running[r]
            if time.time() - t > limit or total and time.time() - t0 > total:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                del running[r]
                res[name] = {"obligations": [], "functions": [], "missing": [], "error": "limit of %d s reached" % limit, "wall_s": round(time.time() - t, 2)}
    return res
