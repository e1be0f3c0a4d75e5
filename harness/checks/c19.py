"""C19: documents retrieved for a query."""
import random

from ..sampling import *

MISSING, UNSUPPORTED = "CorpusMissingError", "UnsupportedCorpusOperation"


def retrieval(c, seed):
    rng = random.Random(seed)
    w = World(c, rng, plain=rng.random() < 0.3, edits=rng.choice([0, 1, 3]), reindex=0.5)
    for i in range(6):
        for k in ("keys", "docs", "html", "table"):
            w.retrieve(k, w.some_docs())
            if k in ("html", "table"):
                w.retrieve(k, w.some_docs(), rng.choice([0, 1, 2, 5, 100]))
        w.bitmap(w.some_docs(), rng.choice([0, 1, 2, 5, 100]))
    w.bitmap(sorted(rng.sample([1, 5, 65535, 65536, 70000, 2**31 - 5], rng.randint(0, 6))), rng.randint(0, 7))
    w.close()
    return w.case


def large(c, seed):
    """more documents than any batch or limit"""
    rng = random.Random(seed)
    w = World(c, rng, corpus=large_corpus(rng, 1300, 5), edits=0)
    most = sorted(rng.sample(w.all, 1100))
    for k in ("keys", "docs", "html", "table"):
        w.retrieve(k, most)
        if k in ("html", "table"):
            w.retrieve(k, most, 600)
    w.bitmap(most, 600)
    w.close()
    return w.case


def refusals(c, seed):
    rng = random.Random(seed)
    w = World(c, rng, n_docs=4)
    docs = w.corpus._docs
    for op in ("index", "docs", "windows", "concordances", "passages", "html", "table", "export"):
        w.refused(None, op, MISSING)
        w.refused(object(), op, UNSUPPORTED)
    for op in ("html", "table", "export"):
        w.refused(SpecCorpus(docs), op, UNSUPPORTED)
    w.refused(TableCorpus(docs), "html", UNSUPPORTED)
    for op in ("table", "export"):
        w.refused(WebCorpus(docs), op, UNSUPPORTED)
    w.close()
    return w.case


def run(c):
    cases = c.drive(retrieval, [c.seed * 10**5 + i for i in range(c.n(500, 8000))])
    cases += c.drive(refusals, [c.seed * 10**5 + i for i in range(c.n(6, 60))])
    cases += c.drive(large, [c.seed * 100 + i for i in range(c.n(2, 12))])
    c.validate("SamplingTrace", cases)
