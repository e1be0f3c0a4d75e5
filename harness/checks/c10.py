"""C10: refinement conserves features and respects pins and selections."""
import random

from ..model import *
from .c08 import CFG

W = {"merge": 1, "delclusters": 1, "delfeatures": 1, "create": 3, "pinf": 4, "pinc": 4, "init": 2, "refine": 14}


def history(c, seed):
    rng = random.Random(seed)
    return random_history(c, rng, n_ops=14, n_features=rng.choice([4, 8, 14, 24]), n_docs=rng.choice([3, 10, 20]),
                          observe=0, weights=W)


def ids_ops(rng, st, fids, nfields=1, refine=True, weights=None):
    """Selected refinements growing the number of clusters while others exist with adjacent ids; pins and merges in between"""
    cids = sorted({r[1] for r in st["fc"]})
    if len(cids) < 2:
        return {"name": "init", "n": rng.choice([3, 5]), "min": 1, "fields": []}
    r = rng.random()
    if r < 0.15:
        return {"name": "pinc", "cs": rng.sample(cids, 1), "on": int(rng.random() < 0.7)}
    if r < 0.3:
        return {"name": "pinf", "fs": rng.sample(fids, min(2, len(fids))), "on": int(rng.random() < 0.7)}
    if r < 0.4:
        return {"name": "create", "fs": rng.sample(fids, min(len(fids), 2))}
    if r < 0.45:
        return {"name": "delclusters", "cs": cids[-1:]}
    sel = rng.sample(cids, rng.randint(1, len(cids)))
    return random_refine(rng, st, sel=sel, target=rng.choice([0, 1, 2, len(sel), len(sel) + 1, len(sel) + 3]))


def selections(c, seed):
    rng = random.Random(seed)
    return random_history(c, rng, n_ops=12, n_features=20, n_docs=12, observe=0, ops=ids_ops)


def large(c, seed):
    rng = random.Random(seed)
    return large_history(c, rng, n=rng.choice([150, 300]), n_docs=rng.choice([60, 200]), n_clusters=rng.choice([5, 70, 110]), refine=True)


def run(c):
    c.model("Model", CFG.format(nf=2, ref="TRUE", em="FALSE", more="INVARIANT RefineFeasible\nPROPERTY PinsLast\n"),
            name="Model (edits and refinement, 2 features)")
    if c.thorough:
        c.model("Model", CFG.format(nf=3, ref="TRUE", em="FALSE", more="INVARIANT RefineFeasible\nPROPERTY PinsLast\n"),
                name="Model (edits and refinement, 3 features)")
    cases = c.drive(history, [c.seed * 10**5 + i for i in range(c.n(1200, 15000))])
    cases += c.drive(selections, [c.seed * 10**5 + i for i in range(c.n(800, 10000))])
    cases += c.drive(large, [c.seed * 100 + i for i in range(c.n(8, 60))])
    c.validate("ModelTrace", cases, keep=lambda x: x[:3] == "C10" or x in ("C08:partition", "C08:known-features", "C11:accepted"))
