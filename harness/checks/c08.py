"""C08: editing operations on the model."""
import json
import os
import random

from .. import core, sim
from ..model import *
from ..walk import Graph, key

CFG = ("SPECIFICATION Spec\nCONSTANTS NF={nf} MaxCid=2 Refines={ref} Emit={em}\nCONSTRAINT Bounded\n"
       "INVARIANT TypeOK\n{more}CHECK_DEADLOCK FALSE\n")


GRAPH = None


def show(st):
    return key({"fc": [r[:3] for r in st["fc"]], "cp": [r[0] for r in st["cl"] if r[4]]})


def walk(c, arg):
    """Walk the transition graph with the real code, visiting new transitions as long as possible."""
    nf, seed, budget, share, shares = arg
    rng = random.Random(seed)
    g = GRAPH
    for s in g.todo:      # every walker takes its own part of the transitions
        g.todo[s] = {o for o in g.todo[s] if hash_str(s + o) % shares == share}
    sets = [set() if f == nf and nf > 2 else {f, f + 1} for f in range(1, nf + 1)]
    cases, n = [], 0
    tpl = None
    while n < budget:
        path = c.path("walk")
        idx = build(path, feature_corpus(sets, n_docs=nf + 3), sim.SimPool(workers=2), seed=seed)
        if nf > 2:
            # a feature which has lost its documents
            idx.corpus = feature_corpus(sets[:-1] + [{nf}], n_docs=nf + 3)
            idx.index()
            idx.corpus = feature_corpus(sets, n_docs=nf + 3)
            idx.index()
        h = History(path)
        stop = False
        for _ in range(60):
            op = g.pick(show(h.last), rng)
            if op is None:
                # outside of the explored bound, or nothing left here
                op = {"name": "delclusters", "cs": sorted({r[1] for r in h.last["fc"]})}
                if not h.last["fc"]:
                    stop = True
                    break
            h.do(idx, op, observe=rng.random() < 0.05)
            n += 1
            if n >= budget:
                break
        idx.close()
        c.rm(path)
        h.case["_visited"] = g.visited
        cases.append(h.case)
        if stop:
            break
    cases[-1]["_total"] = g.visited
    return cases


def hash_str(s):
    import zlib
    return zlib.crc32(s.encode())


def replay(c, nf, budget):
    r = c.model("Model", CFG.format(nf=nf, ref="FALSE", em="TRUE", more=""), name=f"Model (edits, {nf} features)")
    global GRAPH
    GRAPH = Graph(r.records("EDGE"))
    n = core.CORES
    cases = c.drive(walk, [(nf, c.seed * 100 + i, budget // n, i, n) for i in range(n)])
    done = sum(x.get("_total", 0) for x in cases)
    c.extra.setdefault("transitions_replayed", []).append({"features": nf, "of": GRAPH.total, "replayed": done})
    return cases


def history(c, seed):
    return random_history(c, random.Random(seed), n_ops=14, refine=False, reindex=0.03)


def large(c, arg):
    seed, kw = arg
    return large_history(c, random.Random(seed), **kw)


LARGE = [dict(n=1200, n_docs=300, n_clusters=3), dict(n=1500, n_docs=300, n_clusters=1100), dict(n=1200, n_docs=300, n_clusters=2, observe=True),
         dict(n=400, n_docs=100, n_clusters=130, observe=True)]


def run(c):
    c.model("Model", CFG.format(nf=2, ref="TRUE", em="FALSE", more="INVARIANT RefineFeasible\nPROPERTY PinsLast\n"),
            name="Model (edits and refinement, 2 features)")
    if c.thorough:
        c.model("Model", CFG.format(nf=3, ref="TRUE", em="FALSE", more="INVARIANT RefineFeasible\nPROPERTY PinsLast\n"),
                name="Model (edits and refinement, 3 features)")
    cases = replay(c, 2, c.n(8000, 30000)) + replay(c, 3, c.n(12000, 250000))
    cases += c.drive(history, [c.seed * 100000 + i for i in range(c.n(240, 4000))])
    cases += c.drive(large, [(c.seed * 100 + i, kw) for i in range(c.n(1, 6)) for kw in LARGE])
    c.validate("ModelTrace", cases, keep=lambda x: x[:3] in ("C08", "C09"))
