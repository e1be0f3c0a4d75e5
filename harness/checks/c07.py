"""C07: concordances and rendered passages."""
import random

from ..passages import *


def concord(c, seed):
    rng = random.Random(seed)
    text = rng.random() < 0.5
    if text:
        w = random_world(c, rng, words=True)
    else:
        # missing values inside of sequences don't matter here
        corpus = gen_corpus(rng, fields=rng.sample(FIELDS, rng.randint(1, 3)), nones="all", n_values=rng.randint(2, 5))
        w = World(c, clean(corpus), rng.choice([1, 2, 1000]), rng)
    docs = list(range(1, len(w.corpus._docs) + 1))
    for _ in range(8):
        if not w.known:
            break
        q = rng.sample(docs, rng.randint(0, len(docs)))
        feats = [rng.choice(w.known) for _ in range(rng.randint(0, 4))]
        sample = rng.choice([-1, -1, 0, 1, 2, 100])
        w.windows(rng, q, feats, rng.choice([0, 1, 2, 3, 10]), sample, text)
    w.close()
    return w.case


def clean(corpus):
    from ..inversion import clean_sequences
    return clean_sequences(corpus)


def unclean(c, seed):
    """sequences with missing values (indexed without positions)"""
    rng = random.Random(seed)
    corpus = gen_corpus(rng, fields=rng.sample(FIELDS, 2), nones="all", n_values=rng.randint(2, 5))
    w = PlainWorld(c, corpus, rng.choice([1, 2, 1000]), rng)
    docs = list(range(1, len(corpus._docs) + 1))
    for _ in range(6):
        if not w.known:
            break
        w.windows(rng, rng.sample(docs, rng.randint(0, len(docs))), [rng.choice(w.known) for _ in range(2)],
                  rng.choice([0, 1, 2, 10]), -1, False)
    w.close()
    return w.case


class PlainWorld(World):
    def __init__(self, c, corpus, batch, rng):
        saved = hi.Index.index
        plain = saved

        def without(self, *a, index_positions=False, **k):
            return plain(self, *a, **k)
        hi.Index.index = without
        try:
            super().__init__(c, corpus, batch, rng)
        finally:
            hi.Index.index = saved
        self.known = [x for x in self.known if x[1] is not None]


def rendered(c, seed):
    rng = random.Random(seed)
    w = random_world(c, rng, words=True)
    seqs = [(i + 1, f, len(v)) for i, (_, d) in enumerate(w.corpus._docs) for f, v in d.items() if isinstance(v, list) and v]
    for _ in range(8):
        if not w.known:
            break
        asked = {}
        if rng.random() < 0.6:
            w.passages(rng, random_clauses(rng, w.known), rng.choice([1, 2, 5]))
            w.case["steps"].pop()
            asked = {w.num[d]: ps for d, ps in w.scored.items()}
        elif seqs:
            for d, f, n in rng.sample(seqs, rng.randint(1, len(seqs))):
                for _ in range(rng.randint(1, 3)):
                    a = rng.randrange(n)
                    b = rng.randrange(a, n)
                    asked.setdefault(d, []).append((f, a, b, b - a + 1))
        w.render(rng, asked, rng.choice([0, 1, 2, 5, 20, 20]), rng.choice([-1, -1, 0, 1, 2, 100]), rng.choice([0, 1, 2, 3]))
    w.close()
    return w.case


def large(c, seed):
    """more documents than any batch"""
    rng = random.Random(seed)
    w = large_world(c, rng, 1150, 40, 5)
    docs = list(range(1, 1151))
    for text in (True, False):
        w.windows(rng, rng.sample(docs, 1100), rng.sample(w.known, 20), rng.choice([1, 3]), -1, text)
        w.windows(rng, docs, rng.sample(w.known, 4), 2, 600, text)
    asked = {d: [(f, i, i, 1)] for d in docs for f in ("text",) for i in [rng.randrange(len(w.corpus._docs[d - 1][1][f]))]}
    w.render(rng, asked, 2, -1, 0)
    w.render(rng, asked, 20, 1050, rng.choice([0, 300]))
    w.close()
    return w.case


def run(c):
    cases = c.drive(concord, [c.seed * 10**5 + i for i in range(c.n(600, 10000))])
    cases += c.drive(unclean, [c.seed * 10**5 + i for i in range(c.n(150, 3000))])
    cases += c.drive(rendered, [c.seed * 10**5 + i for i in range(c.n(600, 10000))])
    cases += c.drive(large, [c.seed * 100 + i for i in range(c.n(1, 8))])
    c.validate("PassagesTrace", cases)
