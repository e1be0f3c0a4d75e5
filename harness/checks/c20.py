"""C20: cross tabulations and the cluster graph."""
import random

from ..ranking import *


def worlds(c, seed):
    rng = random.Random(seed)
    w = World(c, rng, n_features=rng.choice([6, 14, 30, 80]), n_docs=rng.choice([4, 9, 20, 60]), edits=rng.randint(1, 6),
              words=rng.random() < 0.3)
    for i in range(4):
        if i == 2:
            w.edit(rng.randint(1, 3), 0.3)
        fields = sorted({r[1] for r in w.features}) + [6]
        for _ in range(2):
            w.cross([[f"q{j}", w.random_query()] for j in range(rng.randint(0, 4))], FIELDS[rng.choice(fields) - 1])
        w.graph(rng.choice([0, 1, 2, 5, 5, 50]), rng.random() < 0.6)
    w.close()
    return w.case


def large(c, seed):
    """more values and clusters than any batch or limit"""
    rng = random.Random(seed)
    w = large_world(c, rng, 1500, 1200, 3)
    w.cross([[f"q{i}", w.docs[::i + 1]] for i in range(3)], FIELDS[0])
    w.close()
    x = large_world(c, rng, 400, 200, 120)
    x.graph(5, rng.random() < 0.5)
    x.close()
    y = heavy_world(c, rng, 1500)
    y.cross([["a", y.docs[-1:]], ["b", y.docs], ["c", sorted(rng.sample(y.docs, 700))]], FIELDS[0])
    y.graph(5, True)
    y.close()
    return [w.case, x.case, y.case]


def run(c):
    cases = c.drive(worlds, [c.seed * 10**5 + i for i in range(c.n(1500, 15000))])
    cases += c.drive(large, [c.seed * 100 + i for i in range(c.n(2, 12))])
    c.validate("RankingTrace", cases)
