"""C18: structured samples and their export."""
import random

from ..sampling import *

CFG = ("SPECIFICATION Spec\nCONSTANTS Docs={d} K={k} MaxN={n}\nINVARIANTS Accepted Complete Fair\nCHECK_DEADLOCK FALSE\n")


def samples(c, seed):
    rng = random.Random(seed)
    w = World(c, rng, plain=rng.random() < 0.2)
    for i in range(4):
        if i == 2:
            w.edit(rng.randint(1, 3), 0.3)
        cl = sorted(w.clusters)
        sel = []
        if cl and rng.random() < 0.5:
            sel = rng.sample(cl, rng.randint(1, len(cl))) + ([777] if rng.random() < 0.2 else [])
        r = w.sample(rng.choice([0, 1, 1, 2, 3, 5, 100, 100]), sel)
        if r and rng.random() < 0.7:
            w.export(r["samples"], r["marks"])
        # any other disjoint samples, with any marks
        if w.all and rng.random() < 0.4:
            left = list(w.all)
            rng.shuffle(left)
            cut = sorted(rng.sample(range(len(left) + 1), min(2, len(left) + 1)))
            parts = [left[:cut[0]], left[cut[0]:cut[-1]], left[cut[-1]:]]
            ids = rng.sample(range(0, 30), 3)
            w.export({x: BitMap(p) for x, p in zip(ids, parts)},
                     {x: BitMap(rng.sample(left, rng.randint(0, len(left)))) for x in rng.sample(range(0, 30), rng.randint(0, 4))})
    w.close()
    return w.case


def large(c, seed):
    """more documents and clusters than any batch or limit"""
    rng = random.Random(seed)
    w = World(c, rng, corpus=large_corpus(rng, 1300, 400), edits=0)
    w.idx.initialise_clusters(rng.choice([3, 130]))
    w.snapshot()
    for n in (rng.choice([1, 5]), 600):
        r = w.sample(n, [])
        if r:
            w.export(r["samples"], r["marks"])
    w.close()
    return w.case


def run(c):
    c.model("Sampling", CFG.format(d="{1,2,3}", k="{1,2,3}", n=3), name="Sampling (3 documents, 3 clusters)")
    if c.thorough:
        c.model("Sampling", CFG.format(d="{1,2,3,4}", k="{1,2,3}", n=2), name="Sampling (4 documents, 3 clusters)")
    cases = c.drive(samples, [c.seed * 10**5 + i for i in range(c.n(900, 9000))])
    cases += c.drive(large, [c.seed * 100 + i for i in range(c.n(2, 12))])
    c.validate("SamplingTrace", cases)
