"""C16: pivoting ranks clusters and features by exact similarity."""
import itertools
import random

from ..ranking import *

CFG = "SPECIFICATION Spec\nCONSTANTS Docs={d} F={f} MaxK={k}\nINVARIANTS BoundHolds ResultIsTopK\nCHECK_DEADLOCK FALSE\n"


def subsets(c, arg):
    """features with every set of documents, twice, in random clusters; every query"""
    n, seed, ks = arg
    rng = random.Random(seed)
    sets = [set(s) for r in range(1, n + 1) for s in itertools.combinations(range(n), r)]
    sets = [s for s in sets for _ in range(2)]
    docs = [(d, {"tags": {PLAIN[i] for i, s in enumerate(sets[:12]) if d in s},
                 "text": {PLAIN[i % 12] for i, s in enumerate(sets) if i >= 12 and i < 24 and d in s},
                 "n": {PLAIN[i % 12] for i, s in enumerate(sets) if i >= 24 and d in s}}) for d in range(n)]
    w = World(c, rng, corpus=FullCorpus(docs), edits=0)
    fids = [r[0] for r in w.features]
    for _ in range(rng.randint(1, 2)):
        w.idx.initialise_clusters(rng.choice([1, 2, 3, 5, 9]))
        if rng.random() < 0.6:
            w.idx.create_cluster_from_features(rng.sample(fids, rng.randint(1, 6)))
        w.snapshot()
        for q in range(2 ** n):
            q = [d for d in range(n) if q >> d & 1]
            for k in rng.sample(ks, 2):
                w.pivot(q, [], k)
    w.close()
    return w.case


def worlds(c, seed):
    rng = random.Random(seed)
    w = World(c, rng, n_features=rng.choice([6, 14, 30, 80]), n_docs=rng.choice([4, 9, 20, 60]), edits=rng.randint(1, 6))
    for i in range(10):
        if i == 5:
            w.edit(rng.randint(1, 3), 0.3)
        cl = sorted(w.clusters)
        sel = rng.sample(cl, rng.randint(1, len(cl))) if cl and rng.random() < 0.4 else []
        w.pivot(w.random_query(), sel, rng.choice([0, 1, 1, 2, 3, 5, 20, 20]))
    w.close()
    return w.case


def large(c, seed):
    """more clusters and features than any batch or limit"""
    rng = random.Random(seed)
    w = large_world(c, rng, 1100, 300, 150)
    for q, k in ((w.docs, 20), (w.docs[::2], 1), (w.docs[:40], 3)):
        w.pivot(q, [], k)
    w.close()
    x = large_world(c, rng, 1500, 700, 2)
    x.pivot(x.docs, [], 1000)
    x.pivot(x.docs[::2], [], 600)
    x.close()
    y = heavy_world(c, rng, 2200)
    for q, k in ((y.docs[-1:], 20), (y.docs[:1], 3), (y.docs, 5), (rng.sample(y.docs, 700), 4), (y.docs[-300:], 2)):
        y.pivot(sorted(q), [], k)
    y.close()
    return [w.case, x.case, y.case]


def run(c):
    c.model("Pivot", CFG.format(d="{1,2,3}", f="{1,2,3}", k=3), name="Pivot (3 documents, 3 features)")
    if c.thorough:
        c.model("Pivot", CFG.format(d="{1,2,3,4}", f="{1,2,3}", k=2), name="Pivot (4 documents, 3 features)")
        c.model("Pivot", CFG.format(d="{1,2,3}", f="{1,2,3,4}", k=3), name="Pivot (3 documents, 4 features)")
    cases = c.drive(subsets, [(4, c.seed * 10**5 + i, [0, 1, 2, 3, 4, 20]) for i in range(c.n(48, 800))])
    cases += c.drive(worlds, [c.seed * 10**5 + i for i in range(c.n(900, 9000))])
    cases += c.drive(large, [c.seed * 100 + i for i in range(c.n(2, 12))])
    c.validate("RankingTrace", cases)
