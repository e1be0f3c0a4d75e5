"""C06: collocations."""
import random

from ..passages import *
from .c05 import CFG


def exhaustive(c, arg):
    n, values, ws, batch, seed = arg
    rng = random.Random(seed)
    docs = all_docs(["a", "b", "d"], n)
    rng.shuffle(docs)
    w = World(c, SpecCorpus([(i, {"text": d, "tags": {"a"}}) for i, d in enumerate(docs)]), batch, rng)
    for x in ws:
        w.colloc(rng, "text", values, x)
    w.close()
    return w.case


def random_queries(c, seed):
    rng = random.Random(seed)
    w = random_world(c, rng)
    if w.known:
        for _ in range(12):
            f = rng.choice(w.known)[0]
            pool = [v for g, v in w.known if g == f]
            w.colloc(rng, f, rng.sample(pool, min(len(pool), rng.choice([0, 1, 1, 2, 3]))), rng.choice(WINDOWS))
    w.close()
    return w.case


def large(c, arg):
    seed, n, m, k = arg
    rng = random.Random(seed)
    w = large_world(c, rng, n, m, k)
    for x in (1, rng.choice([2, 5, 50])):
        w.colloc(rng, "text", [v for _, v in rng.sample(w.known, min(len(w.known), 25))], x)
    w.close()
    return w.case


def run(c):
    c.model("Passages", CFG.format(d=2, m=3, v="{0,1,2,9}", nc=2, w="{0,1,2,3}"), name="Passages (2 clauses)")
    args = []
    for batch in (1, 2, 7, 1000):
        for values in (["b"], ["b", "d"], ["a"]):
            args.append((4, values, [0, 1, 2, 3, 5], batch, c.seed + batch))
        args.append((5, ["b"], [1, 2, 4], batch, c.seed))
    cases = c.drive(exhaustive, args)
    cases += c.drive(random_queries, [c.seed * 10**5 + i for i in range(c.n(800, 14000))])
    cases += c.drive(large, [(c.seed * 100 + i, *x) for i in range(c.n(1, 8)) for x in ((1150, 12, 4), (150, 1200, 15))])
    c.validate("PassagesTrace", cases)
