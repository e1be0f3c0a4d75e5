"""C09: cluster summaries and listings."""
import random

from ..model import *
from . import c08
from .c08 import replay, CFG


def history(c, seed):
    rng = random.Random(seed)
    return random_history(c, rng, n_ops=12, n_features=rng.choice([4, 8, 14]), n_docs=rng.choice([3, 10, 25]),
                          reindex=rng.choice([0, 0.15]), observe=0.8)


def large(c, seed):
    """more documents than fit in one container of a compressed bitmap, and clusters of every size"""
    rng = random.Random(seed)
    n = rng.choice([200, 400])
    sets = []
    for i in range(rng.randint(6, 12)):
        lo = rng.randrange(n)
        sets.append(rng.choice([set(range(lo, min(n, lo + rng.choice([1, 5, 60])))), {d for d in range(n) if rng.random() < 0.1} or {0},
                                {n - 1 - lo}]))
    path = c.path("large")
    idx = build(path, feature_corpus(sets, n_docs=n), sim.SimPool(workers=3, rng=random.Random(seed)), batch=rng.choice([7, 1000]),
                seed=seed)
    h = History(path)
    for _ in range(6):
        h.do(idx, random_op(rng, h.last, [r[0] for r in h.case["epochs"][-1]] or [1]), observe=True)
    idx.close()
    c.rm(path)
    return h.case


def heavy(c, seed):
    return heavy_history(c, random.Random(seed))


def run(c):
    c.model("Model", CFG.format(nf=2, ref="TRUE", em="FALSE", more="INVARIANT RefineFeasible\nPROPERTY PinsLast\n"),
            name="Model (edits and refinement, 2 features)")
    cases = replay(c, 2, c.n(6000, 20000))
    cases += c.drive(history, [c.seed * 10**5 + i for i in range(c.n(600, 8000))])
    cases += c.drive(large, [c.seed * 10**5 + i for i in range(c.n(24, 300))])
    cases += c.drive(c08.large, [(c.seed * 100 + i, kw) for i in range(c.n(1, 6)) for kw in c08.LARGE[1:]])
    cases += c.drive(heavy, [c.seed * 100 + i for i in range(c.n(1, 4))])
    c.validate("ModelTrace", cases, keep=lambda x: x[:3] == "C09")
