"""C01: indexing yields the exact inversion of the corpus."""
import random

from .. import sim
from ..inversion import *


def run(c):
    rng = random.Random(c.seed)
    index_design(c, 4, 1, 2)
    if c.thorough:
        index_design(c, 6, 1, 3)
    cases = schedule_cases(c, rng, c.n(500, 5000))
    cases += c.drive(lambda c, s: random_case(c, random.Random(s)), [c.seed * 10**6 + i for i in range(c.n(300, 4000))])
    # larger corpora
    cases += c.drive(lambda c, s: random_case(c, random.Random(s), steps=2, n_docs=40, n_values=15, max_len=20),
                     [c.seed * 10**7 + i for i in range(c.n(16, 200))])
    cases.append({"steps": [empty_step(c)]})
    cases += c.drive(large_case, [(c.seed * 10**7 + i, *x) for i in range(c.n(1, 8)) for x in ((2300, 1200, 1, False), (1100, 60, 6, True))])
    for i in range(c.n(1, 4)):
        cases.append(process_pool_case(c, c.seed * 17 + i, True))
    c.validate("InversionTrace", cases, keep=lambda x: x[:3] in ("C01", "C03"))


def empty_step(c):
    path = c.path("empty")
    idx = hi.Index(path, pool=sim.SimPool())
    try:
        return run_step(idx, SpecCorpus([]), Keys(), False, 10)
    finally:
        idx.close()
