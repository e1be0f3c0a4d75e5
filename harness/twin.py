"""
Histories played by one of several equal sessions (TwinsTrace.tla).

python -m harness.twin JOBS.json OUT.json: JOBS = [[template, seed of the history, seed of the session, variant]]
The process is started with a hash seed of its own.
"""
import json
import os
import random
import shutil
import sys
import tempfile

from . import core, model, sim
from .corpora import *
from .sim import index as hi, BitMap


class Last(random.Random):
    """a schedule in which the task submitted last finishes first"""

    def random(self):
        return 0.999999

    def randrange(self, n, *_):
        return n - 1

    def shuffle(self, x):
        x.reverse()


def pool(variant, seed):
    if variant == 0:
        return sim.SimPool(workers=1)
    if variant == 1:
        return sim.SimPool(workers=4, rng=random.Random(seed))
    if variant == 2:
        return sim.SimPool(workers=9, rng=Last())
    return sim.SimPool(workers=2, rng=random.Random(seed + 17), early=0.9)


def frac(x):
    return repr(x)


def play(template, hist, seed, variant, workdir):
    """[[call, result, state]]"""
    rng = random.Random(hist)
    path = os.path.join(workdir, "twin.db")
    corpus = corpus_of(template)
    model.copy_db(template, path)
    out = []
    random.seed(variant * 1000 + hist)
    idx = hi.Index(path, corpus=corpus, pool=pool(variant, hist), random_seed=seed)
    try:
        content = model.content(path)
        fids = [r[0] for r in content]
        feats = {r[0]: (FIELDS[r[1] - 1], VALUES[r[2] - 1]) for r in content}
        docs = sorted({d for r in content for d in r[3]})
        st = model.state(path)
        for i in range(12):
            for _ in range(variant):
                random.random()
            call, fn = choose(rng, idx, st, fids, feats, docs, i)
            try:
                with core.deadline(60):
                    res = fn()
            except core.MachineryError:
                raise
            except Exception as e:
                res = ["raised", type(e).__name__]
            st = model.state(path)
            out.append([json.dumps(call, sort_keys=True, default=list), res, st])
    finally:
        idx.close()
        for s in ("", "-wal", "-shm"):
            if os.path.exists(path + s):
                os.remove(path + s)
    return out


def corpus_of(template):
    with open(template + ".json") as f:
        return SpecCorpus2([(k, {a: (list if kind == "seq" else set)(v) for a, kind, v in fs}) for k, fs in json.load(f)])


class SpecCorpus2(FullCorpus):
    pass


def choose(rng, idx, st, fids, feats, docs, i):
    r = rng.random()
    if i == 0 or not st["fc"]:
        fields = sorted({FORD[f] for f, _ in feats.values()})
        some = fields if rng.random() < 0.5 else []
        op = {"name": "init", "n": rng.choice([2, 3, 4, 7]), "min": rng.choice([1, 1, 2]), "fields": some}
        return op, lambda: model.apply(idx, op)
    if r < 0.45:
        op = model.random_refine(rng, st, iters=rng.choice([1, 2, 3, 5]))
        return op, lambda: model.apply(idx, op)
    if r < 0.6:
        op = model.random_op(rng, st, fids, 3, refine=False)
        return op, lambda: model.apply(idx, op)
    q = sorted(rng.sample(docs, rng.randint(0, len(docs))))
    n = rng.choice([1, 2, 3, 5])
    kind = rng.choice(["bitmap", "sample", "html", "table", "windows", "concordances", "passages", "colloc", "pivot", "graph"])
    call = [kind, q, n]
    words = [f for f in fids if feats[f][0] == "text"]
    if kind == "bitmap":
        return call, lambda: list(idx.sample_bitmap(BitMap(q), n))
    if kind == "sample":
        def sample():
            a, b = idx.structured_doc_sample(docs_per_cluster=n)
            return [[c, list(x)] for c, x in a.items()], sorted([c, list(x)] for c, x in b.items())
        return call, sample
    if kind == "html":
        return call, lambda: sorted([d, k] for d, k, _ in idx.render_docs_html(BitMap(q), random_sample_size=n))
    if kind == "table":
        return call, lambda: sorted(k for k, _ in idx.render_docs_table(BitMap(q), random_sample_size=n))
    some = rng.sample(words or fids, min(len(words or fids), 3))
    call.append(some)
    if kind in ("windows", "concordances"):
        fn = idx.extract_matching_feature_windows if kind == "windows" else idx.concordances
        return call, lambda: sorted(
            [d, k, sorted([f, sorted([repr(v), len(w)] for v, w in m.items())] for f, m in fs.items())]
            for k, d, fs in fn(BitMap(q), some, 2, random_sample_size=n))
    if kind == "passages":
        def passages():
            ps = idx.score_passages_dnf([[f] for f in some[:2]], 3)
            res = list(idx.render_passages_table(ps, random_sample_size=n, batch_size=2))
            return (sorted([d, sorted(p)] for d, p in ps.items()),
                    sorted([d, k, sorted([f, [repr(x) for x in v]] for f, v in rec.items() if isinstance(v, list))] for d, k, rec in res))
        return call, passages
    if kind == "colloc":
        def colloc():
            if not words:
                return []
            c, a, b = idx.count_collocations("text", some, 2)
            return sorted([f, list(x)] for f, x in c.items()), a, b
        return call, colloc
    if kind == "pivot":
        return call, lambda: [[c, frac(s), [[x[0], frac(x[3])] for x in rows]] for c, s, rows in idx.pivot_clusters_by_query(BitMap(q), top_k=n)]

    def graph():
        g = idx.create_cluster_cooccurrence_graph(top_k=n)
        return sorted([a, d["document_count"], d["label"]] for a, d in g.nodes(data=True)), sorted(
            [min(a, b), max(a, b), frac(d["weight"])] for a, b, d in g.edges(data=True))
    return call, graph


def main():
    jobs, out = sys.argv[1:3]
    workdir = tempfile.mkdtemp(dir=os.path.dirname(out))
    with open(jobs) as f:
        jobs = json.load(f)
    res = []
    for template, hist, seed, variant in jobs:
        res.append(play(template, hist, seed, variant, workdir))
    with open(out, "w") as f:
        json.dump(res, f, default=list)
    shutil.rmtree(workdir, ignore_errors=True)


if __name__ == "__main__":
    main()
