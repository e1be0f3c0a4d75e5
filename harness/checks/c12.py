"""C12: refinement moves features to the best scoring cluster."""
import random

from ..model import *
from .c10 import history


def ops(rng, st, fids, nfields=1, refine=True, weights=None):
    cids = sorted({r[1] for r in st["fc"]})
    r = rng.random()
    if len(cids) < 2 or r < 0.15:
        return {"name": "init", "n": rng.choice([2, 3, 4, 5]), "min": 1, "fields": []}
    if r < 0.3:
        return random_op(rng, st, fids, nfields, refine=False)
    return random_refine(rng, st, target=0, iters=1, prob=rng.choice([100, 100, 100, 0]), batches=0, exhaustive=1,
                         tol=rng.choice([0, 5, 30, 100]))


def one_step(c, seed):
    rng = random.Random(seed)
    return random_history(c, rng, n_ops=9, n_features=rng.choice([4, 8, 11]), n_docs=rng.choice([3, 6, 10]), observe=0, ops=ops)


def many_clusters(c, seed):
    """more features and clusters than are handed out at once"""
    rng = random.Random(seed)
    nf, nd = rng.choice([60, 90]), rng.choice([20, 30])
    sets = [{rng.randrange(nd) for _ in range(rng.choice([1, 2, 3]))} for _ in range(nf)]
    path = c.path("many")
    idx = build(path, feature_corpus(sets, n_docs=nd), sim.SimPool(workers=rng.randint(1, 4), rng=random.Random(seed)), seed=seed)
    try:
        h = History(path)
        h.do(idx, {"name": "init", "n": rng.choice([12, 25]), "min": 1, "fields": []})
        fids = [r[0] for r in h.last["fc"]]
        h.do(idx, {"name": "pinf", "fs": rng.sample(fids, 10), "on": 1})
        h.do(idx, {"name": "pinc", "cs": sorted({r[1] for r in h.last["fc"]})[:2], "on": 1})
        for _ in range(3):
            op = random_refine(rng, h.last, target=0, iters=1, prob=rng.choice([100, 100, 0]), batches=0, exhaustive=1, tol=rng.choice([0, 5]))
            if rng.random() < 0.5:
                op["sel"] = []
            h.do(idx, op)
        return h.case
    finally:
        idx.close()
        c.rm(path)


def run(c):
    cases = c.drive(one_step, [c.seed * 10**5 + i for i in range(c.n(1800, 20000))])
    cases += c.drive(history, [c.seed * 10**5 + i for i in range(c.n(200, 2000))])
    cases += c.drive(many_clusters, [c.seed * 100 + i for i in range(c.n(24, 300))])
    n = sum(1 for x in cases for s in x["steps"] if s["op"]["name"] == "refine" and s["op"]["exhaustive"] and s["op"]["prob"] == 100)
    c.extra["exhaustive_refinements"] = n
    c.validate("ModelTrace", cases, keep=lambda x: x[:3] == "C12" or x in ("C11:accepted", "C08:partition"))
