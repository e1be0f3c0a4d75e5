"""C13: edits are all or nothing, and leave the session usable."""
import os
import random

from .. import core, sim
from ..store import *

WORLDS = []
LARGE = ["merge", "delclusters", "delfeatures", "create", "pinf", "pinc", "init", "refine"]
STORE = ("SPECIFICATION Spec\nCONSTANTS Sessions={ss} F={{1,2}} C={{1,2}} MaxOps={ops}\n"
         "INVARIANTS Consistent UsableWhenIdle Serial\n{more}CHECK_DEADLOCK FALSE\n")


def design(c):
    c.model("Store", STORE.format(ss="{s1,s2}", ops=1, more="PROPERTIES CommitsAreOperations Finishes\n"),
            name="Store (2 sessions, 1 operation each)")
    if c.thorough:
        c.model("Store", STORE.format(ss="{s1,s2}", ops=2, more="PROPERTY CommitsAreOperations\n"),
                name="Store (2 sessions, 2 operations each)")
        c.model("Store", STORE.format(ss="{s1,s2,s3}", ops=1, more="PROPERTY CommitsAreOperations\n"),
                name="Store (3 sessions, 1 operation each)")


def op_for(rng, w, name):
    st, fids = w["state"], w["fids"]
    cids = sorted({r[1] for r in st["fc"]})
    if name == "refine":
        return random_refine(rng, st, iters=2, min=1, target=rng.choice([0, len(cids) + 1, max(1, len(cids) - 1)]),
                             prob=100, sel=[], probe=[])
    if name == "merge":
        return {"name": "merge", "cs": rng.sample(cids, min(len(cids), rng.choice([2, 3])))}
    if name == "create":
        return {"name": "create", "fs": rng.sample(fids, min(len(fids), rng.randint(1, 4)))}
    for _ in range(50):
        op = random_op(rng, st, fids, 2, refine=False, weights={name: 100})
        if op["name"] == name:
            return op
    return {"name": "create", "fs": fids[:1]}


def undisturbed(c, w, op, seed, workers):
    """how many statements, and with what result"""
    path = c.path("twin")
    copy_db(w["path"], path)
    g, gw = FaultGate(path), FaultGate(path, worker=True)

    class Both(sim.Gate):
        def before(self, conn, sql):
            g.before(conn, sql), gw.before(conn, sql)
    pool = sim.SimPool(workers=workers)
    idx = hi.Index(path, corpus=w["corpus"], pool=pool, random_seed=seed)
    with sim.gated(Both()):
        exc, ret, _ = do(idx, op)
    idx.close()
    res = {"n": len(g.sql), "nw": len(gw.sql), "tasks": pool.count, "post": state(path), "exc": exc, "ret": ret}
    c.rm(path)
    return res


def after(rec, rng, w, idx, fresh):
    """later edits of the same session and of a new one, and what others see of them"""
    sessions = [(1, idx)] if idx is not None else []
    sessions.append((2, fresh))
    for s, who in sessions:
        for _ in range(2):
            op = random_op(rng, rec.last, w["fids"], 2, refine=rng.random() < 0.2)
            if op["name"] == "refine":
                op["target"] = 0
            rec.run(s, who, op)
        rec.run(3 - s if len(sessions) > 1 else s, sessions[0][1] if s == 2 else fresh, {"name": "top", "k": 20})


def faulty(c, arg):
    wi, op, seed, workers, kind, k, twin = arg
    w = WORLDS[wi]
    rng = random.Random(repr(arg[:6]))
    path = c.path("run")
    copy_db(w["path"], path)
    rec = Recorder(path, "C13")
    pool = sim.SimPool(workers=workers)
    late = []
    gate = None

    def note(f):
        def g():
            if state(path) != w["state"]:
                late.append(1)
            f()
        return g

    boom = {"error": raiser(Injected("injected: disk I/O error")), "interrupt": raiser(KeyboardInterrupt()),
            "crash": lambda: os._exit(7)}.get(kind.split("-")[0], raiser(Injected("injected")))
    if kind in ("error", "interrupt", "crash"):
        gate = FaultGate(path, at=abs(k), where="before" if k > 0 else "after", what=note(boom))
    elif kind.endswith("-row"):
        gate = FaultGate(path, at=k, where="row", what=note(boom))
    elif kind == "error-worker":
        gate = FaultGate(path, at=k, where="before", worker=True, what=note(boom))
    elif kind == "task":
        pool.fail_task = k
    elif kind.endswith("-submit"):
        pool.on_submit, pool.submit_exc = k, note(boom)
    gate = gate or sim.Gate()
    rec.step("start", 1, op)
    idx = None
    if kind.startswith("crash"):
        rec.close()      # no connection is carried into the child

        def child():
            me = hi.Index(path, corpus=w["corpus"], pool=pool, random_seed=seed)
            with sim.gated(gate):
                do(me, op)
        res = in_child(child)
        exc, ret, L = ("crash" if res is None else "late"), twin["ret"], no_lists()
        rec.db = sim.raw_connect(path, isolation_level=None)
        rec.ver = -1
    else:
        idx = hi.Index(path, corpus=w["corpus"], pool=pool, random_seed=seed)
        try:
            with core.deadline(30), sim.gated(gate):
                exc, ret, L = do(idx, op)
        except KeyboardInterrupt as e:
            exc, ret, L = "KeyboardInterrupt", twin["ret"], no_lists()
        if exc:
            ret = twin["ret"]
        if exc and late:
            exc = "late"
    rec.finish(1, idx, op, exc, ret, L, 0)
    # exactly the undisturbed result, or nothing
    for x in rec.case["steps"]:
        if x["k"] == "commit" and x["s"] == 1:
            x["want"] = [twin["post"]]
    fresh = hi.Index(path, corpus=w["corpus"], pool=sim.SimPool(workers=2))
    after(rec, rng, w, idx, fresh)
    for i in (idx, fresh):
        if i is not None:
            i.close()
    rec.close()
    c.rm(path)
    rec.case["_how"] = [wi, kind, k, op["name"]]
    return rec.case


def nested(c, arg):
    """Edits inside of a larger transaction: a failed one is undone by itself, the others are kept."""
    wi, ops, kind, k = arg
    w = WORLDS[wi]

    def script(path, fault):
        pool = sim.SimPool(workers=2)
        idx = hi.Index(path, corpus=w["corpus"], pool=pool)
        n, fired, failed = 0, True, 0
        idx.db.execute("begin")
        for i, op in enumerate(ops):
            if i == 1:
                if fault is None:
                    continue
                g = FaultGate(path, at=fault[1], what=raiser(Injected("injected") if fault[0] == "error" else KeyboardInterrupt()))
                try:
                    with core.deadline(30), sim.gated(g):
                        exc = do(idx, op)[0]
                except KeyboardInterrupt:
                    exc = "KeyboardInterrupt"
                fired, failed = g.fired, bool(exc)
            else:
                do(idx, op)
        idx.db.execute("commit")
        left = int(idx.db.in_transaction)
        idx.close()
        return fired, failed, left

    path = c.path("twin")
    copy_db(w["path"], path)
    script(path, None)
    want = state(path)
    c.rm(path)
    copy_db(w["path"], path)
    rec = Recorder(path, "C13")
    op = {"name": "script"}
    rec.step("start", 1, op)
    fired, failed, left = script(path, (kind, k))
    if not fired or not failed:
        rec.close()
        c.rm(path)
        return []
    st = rec.look(1, op)
    if st is not None:
        st["want"] = [want]
    elif want != w["state"]:
        rec.step("commit", 1, op, ret=-1, e=1, post=rec.last)["want"] = [want]
    fresh = hi.Index(path, corpus=w["corpus"], pool=sim.SimPool(workers=2))
    rec.step("end", 1, op, exc="late", ret=-1, clear=0, lists=no_lists(), intx=left)
    after(rec, random.Random(k), w, None, fresh)
    fresh.close()
    rec.close()
    c.rm(path)
    rec.case["_how"] = ["nested", wi, ops, kind, k]
    return rec.case


def run(c):
    rng = random.Random(c.seed)
    design(c)
    WORLDS[:] = [world(c, random.Random(c.seed * 1000 + i)) for i in range(c.n(3, 12))]
    args = []
    for wi, w in enumerate(WORLDS):
        for name in ["merge", "delclusters", "delfeatures", "create", "pinf", "pinc", "init", "refine", "refine"]:
            op = op_for(rng, w, name)
            seed, workers = rng.randrange(1000), rng.choice([1, 2, 3])
            t = undisturbed(c, w, op, seed, workers)
            for k in range(1, t["n"] + 1):
                for kind in ("error", "interrupt", "crash"):
                    args.append((wi, op, seed, workers, kind, k, t))
                args.append((wi, op, seed, workers, "interrupt", -k, t))
                args.append((wi, op, seed, workers, "crash", -k, t))
                for kind in ("error-row", "interrupt-row", "crash-row"):
                    args.append((wi, op, seed, workers, kind, k, t))
            for k in range(1, t["nw"] + 1):
                args.append((wi, op, seed, workers, "error-worker", k, t))
            for k in range(1, t["tasks"] + 1):
                for kind in ("task", "error-submit", "interrupt-submit", "crash-submit"):
                    args.append((wi, op, seed, workers, kind, k, t))
    limit = c.n(3000, 40000)
    c.extra["faults"] = {"points": len(args), "run": min(limit, len(args))}
    if len(args) > limit:
        args = rng.sample(args, limit)
    # edits of a large model
    WORLDS.append(large_world(c, random.Random(c.seed * 1000 + 900)))
    for name in LARGE:
        op = large_op(rng, WORLDS[-1], name)
        t = undisturbed(c, WORLDS[-1], op, 7, 2)
        at = sorted({t["n"] - 1, t["n"] - 2, t["n"] // 2, *(rng.randint(1, t["n"]) for _ in range(c.n(2, 20)))} - {0})
        args += [(len(WORLDS) - 1, op, 7, 2, rng.choice(["error", "interrupt", "error-row"]), k, t) for k in at]
    cases = c.drive(faulty, args)
    args = []
    for wi, w in enumerate(WORLDS[:-1]):
        for _ in range(c.n(6, 40)):
            ops = [op_for(rng, w, rng.choice(["merge", "create", "delclusters", "delfeatures", "pinf", "pinc"])) for _ in range(3)]
            args += [(wi, ops, kind, k) for k in range(1, 13) for kind in ("error", "interrupt")]
    cases += c.drive(nested, args)
    c.validate("StoreTrace", cases)
