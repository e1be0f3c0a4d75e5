"""C02: the positional index."""
import random

from ..inversion import *


def run(c):
    rng = random.Random(c.seed + 2)
    index_design(c, 5, 2, 2)
    if c.thorough:
        index_design(c, 6, 1, 3)
    cases = schedule_cases(c, rng, c.n(400, 5000), pos=True)
    cases += c.drive(lambda c, s: random_case(c, random.Random(s), positions=0.85),
                     [c.seed * 10**6 + i for i in range(c.n(300, 4000))])
    cases += c.drive(lambda c, s: random_case(c, random.Random(s), steps=2, n_docs=30, n_values=6, max_len=40,
                                              positions=1),
                     [c.seed * 10**7 + i for i in range(c.n(24, 200))])
    cases += c.drive(large_case, [(c.seed * 10**7 + i, *x) for i in range(c.n(1, 8)) for x in ((700, 10, 110, True), (2300, 1200, 1, True))])
    for i in range(c.n(1, 4)):
        cases.append(process_pool_case(c, c.seed * 19 + i, True))
    c.validate("InversionTrace", cases, keep=lambda x: x[:3] == "C02")
