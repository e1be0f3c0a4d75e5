"""C17: ranked queries count exactly and keep the best documents."""
import itertools
import random

from ..ranking import *

CFG = "SPECIFICATION Spec\nCONSTANTS Docs={d} MaxSets={m}\nINVARIANTS Exact MatchIsUnion BestIsAcceptable\nCHECK_DEADLOCK FALSE\n"


def bits(step_sets):
    step = {"k": "bits", "prop": "C17", "m": 1, "exc": "", "sets": [list(s) for s in step_sets], "match": [], "weights": [], "tops": []}
    try:
        with core.deadline(60):
            bms = [BitMap(s) for s in step_sets]
            m, bs = utilities.compute_bitslice(iter(bms))
            record_bits(step, m, bs)
            if [list(b) for b in bms] != [sorted(s) for s in step_sets]:
                step["exc"] = "the sets were changed by combining them"
    except core.MachineryError:
        raise
    except Exception as e:
        step["exc"] = f"{type(e).__name__}: {e}"
    return step


EMPTY = [{"features": [], "clusters": []}]


def count_vectors(c, arg):
    """every vector of counts of up to m for n documents, reached in a random order of sets"""
    n, m, part, parts, seed = arg
    rng = random.Random(seed)
    steps = []
    for i, v in enumerate(itertools.product(range(m + 1), repeat=n)):
        if i % parts != part:
            continue
        # choose which of m sets contain each document
        sets = [[] for _ in range(m)]
        for d, k in enumerate(v):
            for s in rng.sample(range(m), k):
                sets[s].append(d)
        steps.append(bits(sets))
    return [{"models": EMPTY, "steps": steps[i:i + 200]} for i in range(0, len(steps), 200)]


def random_sets(c, seed):
    rng = random.Random(seed)
    steps = []
    for _ in range(10):
        docs = rng.choice([range(5), range(14), [0, 1, 65535, 65536, 70000, 131072, 2**31 - 2]])
        n = rng.choice([0, 1, 2, 3, 8, 9, 15, 16, 17, 33])
        p = rng.random()
        fam = [[d for d in docs if rng.random() < p] for _ in range(rng.randint(1, 6))]
        steps.append(bits([rng.choice(fam) if rng.random() < 0.5 else [d for d in docs if rng.random() < p] for _ in range(n)]))
    return {"models": EMPTY, "steps": steps}


def many_sets(c, seed):
    """more sets than fit in eight layers"""
    rng = random.Random(seed)
    steps = []
    for n in (130, 300, rng.choice([255, 256, 257, 511, 512, 600]), 1030):
        docs = rng.choice([range(6), [0, 65535, 65536, 2**31 - 2]])
        p = {d: rng.choice([0.01, 0.5, 0.97, 1]) for d in docs}
        steps.append(bits([[d for d in docs if rng.random() < p[d]] for _ in range(n)]))
    return {"models": EMPTY, "steps": steps}


def large(c, seed):
    """a query over many features"""
    rng = random.Random(seed)
    w = large_world(c, rng, 60, 400, 1, per_doc=(20, 150, 300, 390))
    fids = [r[0] for r in w.features]
    for n in (130, 300):
        w.query(rng.sample(fids, min(n, len(fids))))
    w.close()
    x = heavy_world(c, rng, 1500)
    fids = [r[0] for r in x.features]
    for n in (2, 6, len(fids)):
        x.query(rng.sample(fids, n))
    x.close()
    return [w.case, x.case]


def queries(c, seed):
    rng = random.Random(seed)
    w = World(c, rng, n_features=rng.choice([6, 14, 30, 80]), n_docs=rng.choice([4, 9, 20, 60]), edits=rng.randint(0, 3))
    fids = [r[0] for r in w.features] + [10**6]
    for _ in range(8):
        w.query([rng.choice(fids) for _ in range(rng.choice([0, 1, 2, 5, 12, 20]))])
    w.close()
    return w.case


def run(c):
    c.model("Bitslice", CFG.format(d="{1,2,3,4}", m=c.n(4, 7)), name="Bitslice")
    if c.thorough:
        c.model("Bitslice", CFG.format(d="{1,2,3}", m=17), name="Bitslice (17 sets)")
    args = [(4, 5, i, 8, c.seed + i) for i in range(8)] + [(3, 9, i, 8, c.seed + i) for i in range(8)]
    if c.thorough:
        args += [(5, 7, i, 64, c.seed + i) for i in range(64)]
    cases = c.drive(count_vectors, args)
    cases += c.drive(random_sets, [c.seed * 10**5 + i for i in range(c.n(500, 6000))])
    cases += c.drive(queries, [c.seed * 10**5 + i for i in range(c.n(600, 6000))])
    cases += c.drive(many_sets, [c.seed * 10**5 + i for i in range(c.n(8, 60))])
    cases += c.drive(large, [c.seed * 100 + i for i in range(c.n(1, 8))])
    c.validate("RankingTrace", cases)
