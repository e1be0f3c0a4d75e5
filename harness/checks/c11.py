"""C11: refinement reaches the target."""
import random

from ..model import *
from .c08 import CFG
from .c10 import history, large, selections


def plenty(c, seed):
    """plenty of features: every missing cluster can be filled"""
    rng = random.Random(seed)
    tgt = rng.choice([2, 3, 3, 4])
    nf = 50 * tgt + rng.randint(0, 20)
    n = 12
    docs = [(d, {"text": [], "tags": set()}) for d in range(n)]
    corpus = WordCorpus(docs_for(rng, nf, n))
    path = c.path("plenty")
    idx = build(path, corpus, sim.SimPool(workers=3), seed=seed)
    h = History(path)
    h.do(idx, {"name": "init", "n": rng.randint(1, tgt - 1), "min": 1, "fields": []})
    if rng.random() < 0.3:
        h.do(idx, {"name": "create", "fs": [h.last["fc"][0][0]]})
        h.do(idx, {"name": "pinc", "cs": [h.last["cl"][-1][0]], "on": 1})
    h.do(idx, random_refine(rng, h.last, sel=[], target=tgt, probe=[], min=1))
    idx.close()
    c.rm(path)
    return h.case


class WordCorpus(FullCorpus):
    """many features, whose values only matter for being different"""
    CORPUS_TYPE = "WordCorpus"


def docs_for(rng, nf, n):
    docs = {d: set() for d in range(n)}
    for f in range(nf):
        for d in rng.sample(range(n), rng.randint(1, 4)):
            docs[d].add(f"w{f}")
    return [(d, {"text": v}) for d, v in docs.items()]


def dissolve(c, seed):
    """nothing moves by itself (acceptance 0), one iteration: only the dissolved clusters change"""
    rng = random.Random(seed)
    nf, n = rng.randint(3, 9), rng.randint(3, 10)
    path = c.path("diss")
    idx = build(path, feature_corpus(random_docsets(rng, nf, n)), sim.SimPool(workers=2, rng=random.Random(seed)), seed=seed)
    h = History(path)
    for _ in range(3):
        h.do(idx, {"name": "init", "n": rng.randint(2, nf), "min": 1, "fields": []})
        fids = [r[0] for r in h.last["fc"]]
        if rng.random() < 0.5:
            h.do(idx, {"name": "create", "fs": rng.sample(fids, rng.randint(1, 2))})
        if rng.random() < 0.5:
            h.do(idx, {"name": "pinf", "fs": rng.sample(fids, 1), "on": 1})
        if rng.random() < 0.4:
            h.do(idx, {"name": "pinc", "cs": [rng.choice(h.last["cl"])[0]], "on": 1})
        k = len(h.last["cl"])
        h.do(idx, random_refine(rng, h.last, prob=0, iters=1, target=max(1, k - rng.randint(1, 3)), sel=[]))
    idx.close()
    c.rm(path)
    return h.case


def run(c):
    c.model("Model", CFG.format(nf=2, ref="TRUE", em="FALSE", more="INVARIANT RefineFeasible\nPROPERTY PinsLast\n"),
            name="Model (edits and refinement, 2 features)")
    if c.thorough:
        c.model("Model", CFG.format(nf=3, ref="TRUE", em="FALSE", more="INVARIANT RefineFeasible\nPROPERTY PinsLast\n"),
                name="Model (edits and refinement, 3 features)")
    cases = c.drive(history, [c.seed * 10**5 + i for i in range(c.n(700, 9000))])
    cases += c.drive(selections, [c.seed * 10**5 + 50000 + i for i in range(c.n(500, 9000))])
    cases += c.drive(dissolve, [c.seed * 10**5 + i for i in range(c.n(800, 9000))])
    cases += c.drive(plenty, [c.seed * 10**5 + i for i in range(c.n(48, 400))])
    cases += c.drive(large, [c.seed * 100 + i for i in range(c.n(8, 60))])
    c.validate("ModelTrace", cases, keep=lambda x: x[:3] == "C11" or x == "C08:partition")
