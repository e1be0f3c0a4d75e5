"""C03: reindexing keeps feature ids, the model and the pins."""
import random

from .. import model
from ..inversion import *


def run(c):
    index_design(c, 4, 1, 2)
    cases = c.drive(lambda c, s: random_case(c, random.Random(s), steps=4),
                    [c.seed * 10**6 + i for i in range(c.n(150, 3000))])
    c.validate("InversionTrace", cases)
    w = {"merge": 2, "delclusters": 1, "delfeatures": 1, "create": 4, "pinf": 5, "pinc": 5, "init": 3, "refine": 2}
    cases = c.drive(lambda c, s: model.random_history(c, random.Random(s), n_ops=12, reindex=0.4, weights=w, observe=0.5),
                    [c.seed * 10**6 + i for i in range(c.n(250, 4000))])
    c.validate("ModelTrace", cases, keep=lambda x: x[:3] in ("C03", "C08", "C09"))
