"""C14: sessions behave as if their operations ran one at a time."""
import random

from .. import core, sim
from ..store import *
from .c13 import design, op_for

WORLDS = []
EDITS = ["merge", "delclusters", "delfeatures", "create", "pinf", "pinc", "init", "refine"]


def run_schedule(c, arg):
    wi, plans, switches, seed, finer = arg
    w = WORLDS[wi]
    path = c.path("conc")
    copy_db(w["path"], path)
    sim.BUSY_TIMEOUT = 0
    rec = Recorder(path, "C14")
    if "contents" in w:
        for co in w["contents"]:
            rec.epoch_of(co)
        for plan in plans:
            for op in plan:
                if op["name"] == "reindex":
                    op["_corpus"] = [w["corpus"], w["other"]][op["which"]]
                    op["e"] = rec.epoch_of(w["contents"][op["which"]])

    def make(i):
        return hi.Index(path, corpus=w["corpus"], pool=sim.SimPool(workers=2), random_seed=seed + i)

    s = Scheduler(rec, plans, make, switches, finer=finer)
    with core.deadline(90):
        s.run()
    # afterwards a new session works
    fresh = hi.Index(path, corpus=w["corpus"], pool=sim.SimPool(workers=2))
    rec.run(9, fresh, {"name": "top", "k": 20})
    rec.run(9, fresh, {"name": "create", "fs": [w["fids"][0]]})
    fresh.close()
    rec.close()
    c.rm(path)
    rec.case["_how"] = [wi, [[o["name"] for o in p] for p in plans], switches]
    rec.case["_ran"] = s.ran
    return rec.case


def any_op(rng, w, reads=0.3):
    if rng.random() < reads:
        return random_read(rng, w)
    if "contents" in w and rng.random() < 0.25:
        return {"name": "reindex", "which": rng.choice([0, 1]), "batch": rng.choice([2, 3, 1000])}
    if rng.random() < 0.6:
        return op_for(rng, w, rng.choice(EDITS))
    return random_op(rng, w["state"], w["fids"], 2)


def measure(c, arg):
    """number of switching points of an operation by itself"""
    wi, op, finer = arg
    case = run_schedule(c, (wi, [[op]], [], 7, finer))
    return [{"steps": [], "n": case["_ran"][0]}]


def run(c):
    rng = random.Random(c.seed)
    design(c)
    nw = c.n(4, 14)
    WORLDS[:] = [world(c, random.Random(c.seed * 1000 + i), reindexable=i % 2 == 1) for i in range(nw)]
    pairs = []
    for wi, w in enumerate(WORLDS):
        for name in EDITS:
            for _ in range(c.n(2, 6)):
                pairs.append((wi, op_for(rng, w, name), any_op(rng, w, 0.15)))
        for n in READS:
            pairs.append((wi, read_named(rng, w, n), any_op(rng, w, 0)))
        if "contents" in w:
            for _ in range(3):
                pairs.append((wi, {"name": "reindex", "which": 1, "batch": 2}, any_op(rng, w, 0.3)))
    na = [x["n"] for x in c.drive(measure, [(wi, a, True) for wi, a, _ in pairs])]
    nb = [x["n"] for x in c.drive(measure, [(wi, b, True) for wi, _, b in pairs])]
    args = []
    for (wi, a, b), n, m in zip(pairs, na, nb):
        for k in range(0, n + 1):
            args.append((wi, [[a], [b]], [(0, k), (1, 10**6)], 7, True))
        for _ in range(c.n(6, 40)):
            k, j = rng.randint(1, max(1, n)), rng.randint(1, max(1, m))
            args.append((wi, [[a], [b]], [(0, k), (1, j)], 7, True))
    limit = c.n(4500, 40000)
    c.extra["schedules"] = {"points": len(args), "run": min(limit, len(args))}
    if len(args) > limit:
        args = rng.sample(args, limit)
    for _ in range(c.n(250, 5000)):
        wi = rng.randrange(nw)
        k = rng.choice([2, 3])
        plans = [[any_op(rng, WORLDS[wi]) for _ in range(rng.randint(1, 3))] for _ in range(k)]
        sw = [(rng.randrange(k), rng.choice([1, 2, 3, 5, 8, 13])) for _ in range(rng.randint(2, 14))]
        args.append((wi, plans, sw, rng.randrange(1000), rng.random() < 0.5))
    # edits of a large model
    WORLDS.append(large_world(c, random.Random(c.seed * 1000 + 900)))
    w = WORLDS[-1]
    big = [(len(WORLDS) - 1, large_op(rng, w, name), rng.choice([{"name": "top", "k": 2}, {"name": "ids"}])) for name in EDITS]
    nb = [x["n"] for x in c.drive(measure, [(wi, a, False) for wi, a, _ in big])]
    for (wi, a, b), n in zip(big, nb):
        for k in sorted({rng.randint(1, n) for _ in range(c.n(2, 12))}):
            args.append((wi, [[a], [b]], [(0, k), (1, 10**6)], 7, False))
    cases = c.drive(run_schedule, args)
    st = c.extra["outcomes"] = {}
    for x in cases:
        for s in x["steps"]:
            if s["k"] == "end":
                k = "refused" if s["exc"] else "done"
                st[k] = st.get(k, 0) + 1
    c.validate("StoreTrace", cases)


def read_named(rng, w, n):
    while True:
        op = random_read(rng, w)
        if op["name"] == n:
            return op
