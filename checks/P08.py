"""P08: a save that is interrupted or fails neither destroys the previous checkpoint nor the optimizer."""
import copy
import errno
import os
import shutil

import numpy as np

from mc import bo, faults
from checks import P07

LEVEL = "fault_enumeration"
RULE = "one execution per (configuration, history, previous checkpoint, kind of failure, point of the save at which it strikes); distinct = distinct tuples; each is non-trivial since the failure really strikes inside the save"
ASSUMPTIONS = ["crashes are process deaths: what reached the operating system survives, unflushed buffers are lost", "the rename of a file is atomic"]
CHUNK = 1
CFGS = ["bo-list", "par", "anneal", "mobo", "log", "cond"]
PRE = ["", "A", "AN", "F"]


def BOUNDS(tier):
    return f"{len(CFGS)} configurations x {'1-3' if tier == 'quick' else len(PRE)} histories x previous checkpoint absent/present/in a new folder x every file-system effect, torn write and pickling step of one save as the point of a process death, of 4 exceptions, and of a concurrent read; plus unpicklable members; after each: load, continue, save again" + ("" if tier == "quick" else "; pairs of consecutive failures")


def cases(tier):
    out = []
    for cfg in CFGS:
        for pre in PRE if tier != "quick" else (["A"] if cfg in ("cond", "log", "par") else ["", "AN"] + (["F"] if cfg == "bo-list" else [])):
            for prev in ("none", "old", "dir"):
                for act in ("crash", "enospc", "perm", "kbd", "mem", "observe"):
                    out.append({"cfg": cfg, "pre": pre, "prev": prev, "act": act, "two": tier != "quick"})
            out.append({"cfg": cfg, "pre": pre, "prev": "old", "act": "unpicklable"})
    return out


EXC = {"enospc": lambda: OSError(errno.ENOSPC, "No space left on device"), "perm": lambda: PermissionError(errno.EACCES, "Permission denied"), "kbd": KeyboardInterrupt, "mem": MemoryError}


def world(c, ctx):
    """a fresh scratch folder, an optimizer with a history, and (optionally) its previous checkpoint"""
    shutil.rmtree("w", ignore_errors=True)
    os.mkdir("w")
    os.chdir("w")
    opt = P07.create(c["cfg"])
    fn = os.path.join("a", "b", "o.pkl") if c["prev"] == "dir" else "o.pkl"
    old = None
    if c["prev"] == "old":
        opt.save(fn)
        old = P07.snap(opt)
    for t, o in enumerate(c["pre"]):
        P07.do(opt, c["cfg"], o, t, ctx)
        if c["prev"] == "old" and t < len(c["pre"]) - 1:
            opt.save(fn)
            old = P07.snap(opt)
    return opt, fn, old, P07.snap(opt)


def disk(c, fn, old, new, ctx, where):
    """what is on the disk is nothing (if nothing was there), the previous, or the complete new checkpoint"""
    cls = bo.cls_of(P07.CFG[c["cfg"]]["cls"])
    if not os.path.exists(fn):
        ctx.check(old is None, lambda: f"{where}: the previous checkpoint disappeared")
        return
    try:
        s = P07.snap(cls.load(fn))
    except Exception as e:
        ctx.check(False, f"{where}: the checkpoint on disk cannot be loaded any more: {type(e).__name__}: {e}")
    ok = [r for r in (old, new) if r is not None and not P07.diff(r, s)]
    ctx.check(ok, lambda: f"{where}: the checkpoint on disk is neither the previous nor the new one: {P07.diff(new, s)}")


def afterwards(c, opt, fn, new, ctx, where):
    """the optimizer is as before, works, and can be saved"""
    d = P07.diff(new, P07.snap(opt))
    ctx.check(not d, lambda: f"{where}: the optimizer was changed by the failing save: {d}")
    twin = P07.create(c["cfg"])
    for t, o in enumerate(c["pre"]):
        P07.do(twin, c["cfg"], o, t, ctx)
    a, b = P07.do(opt, c["cfg"], "A", 50, ctx), P07.do(twin, c["cfg"], "A", 50, ctx)
    ctx.check(a == b, lambda: f"{where}: the optimizer proposes {a} instead of {b}")
    d = P07.diff(P07.snap(twin), P07.snap(opt))
    ctx.check(not d, lambda: f"{where}: the optimizer does not continue properly: {d}")
    opt.save(fn)
    d = P07.diff(P07.snap(opt), P07.snap(bo.cls_of(P07.CFG[c["cfg"]]["cls"]).load(fn)))
    ctx.check(not d, lambda: f"{where}: the next save is wrong: {d}")


def run_case(c, ctx):
    home = os.getcwd()
    try:
        if c["act"] == "unpicklable":
            return unpicklable(c, ctx)
        if c["act"] == "observe":
            opt, fn, old, new = world(c, ctx)

            def look(k, what):
                disk_quiet(k, what)

            def disk_quiet(k, what):
                p.observer = None
                try:
                    disk(c, fn, old, new, ctx, f"another process reads at {what!r}")
                finally:
                    p.observer = look
                ctx.step(what)
                ctx.state((c["cfg"], c["pre"], c["prev"], "observe", k))

            p = faults.Points(".", observer=look)
            with faults.interposed(p):
                opt.save(fn)
            disk(c, fn, None, new, ctx, "after a regular save")
            ctx.trace()
            return
        # number of points of a regular save
        opt, fn, old, new = world(c, ctx)
        p = faults.Points(".")
        with faults.interposed(p):
            opt.save(fn)
        total, log = p.n, p.log
        ctx.check(total > 0, "the save has no observable effect")
        ctx.sample(log)
        os.chdir(home)
        for k in range(total):
            opt, fn, old, new = world(c, ctx)
            where = f"{c['act']} at {log[k]!r}"
            ctx.step(where)
            if c["act"] == "crash":
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        with faults.interposed(faults.Points(".", k, "crash")):
                            opt.save(fn)
                        code = 0
                    finally:
                        os._exit(code)
                _, st = os.waitpid(pid, 0)
                ctx.check(os.WEXITSTATUS(st) == 77, lambda: f"{where}: exit status {st}")
            else:
                exc = EXC[c["act"]]()
                try:
                    with faults.interposed(faults.Points(".", k, exc)):
                        opt.save(fn)
                except type(exc):
                    pass
            disk(c, fn, old, new, ctx, where)
            ctx.state((c["cfg"], c["pre"], c["prev"], c["act"], k))
            if c["two"] and c["act"] != "crash":
                for k2 in range(total):
                    exc = EXC[c["act"]]()
                    try:
                        with faults.interposed(faults.Points(".", k2, exc)):
                            opt.save(fn)
                    except type(exc):
                        pass
                    disk(c, fn, old, new, ctx, f"{where}, then again at {k2}")
                    ctx.step()
            afterwards(c, opt, fn, new, ctx, where)
            os.chdir(home)
            ctx.trace()
    finally:
        os.chdir(home)
        shutil.rmtree(os.path.join(home, "w"), ignore_errors=True)


class Stubborn:
    def __reduce_ex__(self, *a):
        raise TypeError("cannot pickle this object")


def unpicklable(c, ctx):
    opt, fn, old, new = world(c, ctx)
    opt.user_object = Stubborn()
    try:
        opt.save(fn)
        ctx.check(False, "saving an unpicklable optimizer reports success")
    except TypeError as e:
        ctx.step(f"save raised {e}")
    disk(c, fn, old, new, ctx, "unpicklable member")
    del opt.user_object
    afterwards(c, opt, fn, new, ctx, "unpicklable member")
    ctx.state((c["cfg"], c["pre"], "unpicklable"))
    ctx.trace()
