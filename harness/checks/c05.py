"""C05: passage search."""
import random

from ..passages import *

CFG = ("SPECIFICATION Spec\nCONSTANTS Docs={d} MaxLen={m} Vals={v} NC={nc} Windows={w}\n"
       "INVARIANTS AlgorithmIsDefinition OrderIrrelevant CollocationIsDefinition QuickIsDefinition\nCHECK_DEADLOCK FALSE\n")


def design(c):
    c.model("Passages", CFG.format(d=2, m=3, v="{0,1,2,9}", nc=2, w="{0,1,2,3}"), name="Passages (2 clauses)")
    c.model("Passages", CFG.format(d=2, m=c.n(3, 4), v="{0,1,2,3}", nc=3, w=c.n("{0,1,2}", "{0,1,2,3}")), name="Passages (3 clauses)")
    if c.thorough:
        c.model("Passages", CFG.format(d=3, m=3, v="{0,1,9}", nc=2, w="{0,1,2,3}"), name="Passages (3 documents)")


def exhaustive(c, arg):
    """every document of up to n words, over words in either clause, in both, or in none"""
    letters, n, clauses, ws, batch, seed = arg
    rng = random.Random(seed)
    docs = [["a" if x == 0 else x for x in d] for d in all_docs(letters, n)]
    rng.shuffle(docs)
    if len(docs) > 360:
        docs = docs[:360]
    w = World(c, SpecCorpus([(i, {"text": d}) for i, d in enumerate(docs)]), batch, rng)
    for x in ws:
        w.passages(rng, clauses, x)
    w.close()
    return w.case


def random_queries(c, seed):
    rng = random.Random(seed)
    w = random_world(c, rng)
    if w.known:
        for _ in range(14):
            w.passages(rng, random_clauses(rng, w.known), rng.choice(WINDOWS))
    w.close()
    return w.case


def large(c, arg):
    seed, n, m, k = arg
    rng = random.Random(seed)
    w = large_world(c, rng, n, m, k)
    for _ in range(4):
        w.passages(rng, random_clauses(rng, w.known, rng.choice([1, 2, 3])), rng.choice([0, 1, 5, 50]))
    # clauses of many features
    w.passages(rng, [rng.sample(w.known, len(w.known) // 2) for _ in range(2)], 3)
    w.close()
    return w.case


def run(c):
    design(c)
    two = [[("text", "b"), ("text", "e")], [("text", "d"), ("text", "e")]]
    three = [[("text", "b")], [("text", "d")], [("text", "e")]]
    one = [[("text", "b")]]
    args = []
    for batch in (1, 2, 7, 1000):
        for ws in ([0, 1, 2], [3, 4, 6]):
            args.append((["a", "b", "d", "e"], 4, two, ws, batch, c.seed + batch))
            args.append((["a", "b", "d", "e"], 4, three, ws, batch, c.seed + batch))
        args.append((["a", "b"], 7, one, [0, 1, 2, 3, 7], batch, c.seed))
    for i in range(c.n(4, 40)):
        args.append((["a", "b", "d", "e"], 5, [two, three][i % 2], [1, 2, 3], [3, 50][i % 2], c.seed * 100 + i))
    cases = c.drive(exhaustive, args)
    cases += c.drive(random_queries, [c.seed * 10**5 + i for i in range(c.n(700, 12000))])
    cases += c.drive(large, [(c.seed * 100 + i, *x) for i in range(c.n(1, 8)) for x in ((1150, 30, 4), (15, 10, 1200))])
    c.validate("PassagesTrace", cases)
