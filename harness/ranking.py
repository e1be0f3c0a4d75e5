"""Ranked queries, pivots, cross tabulations, cluster graphs (RankingTrace.tla)."""
import random
from fractions import Fraction

from . import core, model, sim
from .corpora import *
from .sim import index as hi, utilities, BitMap


def frac(x):
    """the exact small fraction a float stands for"""
    try:
        f = Fraction(x).limit_denominator(4000)
    except (TypeError, ValueError, OverflowError):
        return [-1, 1]
    if f < 0 or f.numerator / f.denominator != x:
        return [-1, 1]
    return [f.numerator, f.denominator]


class World:
    def __init__(self, c, rng, corpus=None, n_features=10, n_docs=9, words=None, edits=6, reindex=0.2):
        self.c, self.rng = c, rng
        self.path = c.path("rank")
        if corpus is None:
            corpus = random_corpus(rng, n_features, n_docs, words)
        self.pool = sim.SimPool(workers=rng.randint(1, 4), rng=random.Random(rng.random()))
        self.corpus = corpus
        self.idx = model.build(self.path, corpus, self.pool, seed=rng.randrange(10**6), batch=rng.choice([1, 3, 1000]))
        self.case = {"models": [], "steps": []}
        self.edit(edits, reindex)

    def edit(self, n, reindex=0.0):
        """some random edits, and the model they leave"""
        rng = self.rng
        nfields = len({f for _, d in self.corpus._docs for f in d})
        for i in range(n):
            if rng.random() < reindex:
                self.corpus = model.mutate_sets(rng, self.corpus)
                self.idx.corpus = self.corpus
                with core.deadline(60):
                    self.idx.index(doc_batch_size=rng.choice([1, 3, 1000]))
                continue
            st = model.state(self.path)
            fids = [r[0] for r in model.content(self.path)] or [1]
            if i == 0 and not st["fc"]:
                op = {"name": "init", "n": rng.choice([1, 2, 3, 4, 5, 12, 30]), "min": 1, "fields": []}
            else:
                op = model.random_op(rng, st, fids, max(1, nfields), refine=False,
                                     weights={"create": 8, "merge": 2, "delclusters": 1, "delfeatures": 2, "pinf": 1, "pinc": 1, "init": 2})
            try:
                with core.deadline(60):
                    model.apply(self.idx, op)
            except core.MachineryError:
                raise
            except Exception:
                pass        # unknown features, empty merges: C08
        self.snapshot()

    def snapshot(self):
        self.features = model.content(self.path)
        st = model.state(self.path)
        cl = {}
        for f, cid, *_ in st["fc"]:
            cl.setdefault(cid, []).append(f)
        self.clusters = cl
        self.docs = sorted({d for r in self.features for d in r[3]})
        self.case["models"].append({"features": self.features, "clusters": [[k, v] for k, v in sorted(cl.items())]})

    def close(self):
        self.idx.close()
        self.c.rm(self.path)

    def guarded(self, step, fn):
        step["exc"] = ""
        step["m"] = len(self.case["models"])
        try:
            with core.deadline(60):
                fn(step)
        except core.MachineryError:
            raise
        except Exception as e:
            step["exc"] = f"{type(e).__name__}: {e}"
        self.case["steps"].append(step)
        return step

    def random_query(self):
        rng = self.rng
        pool = self.docs + [max(self.docs, default=0) + 3, 10**6]
        r = rng.random()
        if r < 0.3 and self.features:
            return sorted(rng.choice(self.features)[3])
        if r < 0.4 and self.clusters:
            return sorted({d for f in self.features if f[0] in rng.choice(list(self.clusters.values())) for d in f[3]})
        return sorted(rng.sample(pool, rng.randint(0, min(len(pool), 8))))

    def query(self, feats):
        def run(step):
            m, bs = self.idx.union_bitslice([f if f[0] != "id" else f[1] for f in forms])
            record_bits(step, m, bs)
        key = {r[0]: (FIELDS[r[1] - 1], val(r[2])) for r in self.features}
        forms = [("id", f) if f not in key or self.rng.random() < 0.5 else key[f] for f in feats]
        return self.guarded({"k": "query", "prop": "C17", "feats": list(feats), "match": [], "weights": [], "tops": []}, run)

    def pivot(self, q, sel, k):
        def run(step):
            kw = {}
            if sel:
                kw["cluster_ids"] = list(sel)
            if k != 20:
                kw["top_k"] = k
            res = list(self.idx.pivot_clusters_by_query(BitMap(q), **kw))
            step["res"] = [[cid, frac(s), [[r[0], fnum(r[1]), vnum(r[2]), frac(r[3])] for r in rows]] for cid, s, rows in res]
        return self.guarded({"k": "pivot", "prop": "C16", "q": list(q), "sel": list(sel), "top": k, "res": []}, run)

    def cross(self, queries, field):
        def run(step):
            v, n, i = self.idx.intersect_queries_with_field({name: BitMap(q) for name, q in queries}, field)
            step.update(values=[vnum(x) for x in v], totals=list(n), inter=[[name, list(x)] for name, x in i.items()])
        return self.guarded({"k": "cross", "prop": "C20", "queries": [[n, list(q)] for n, q in queries], "field": fnum(field),
                             "values": [], "totals": [], "inter": []}, run)

    def graph(self, k, named):
        def run(step):
            kw = {} if k == 5 else {"top_k": k}
            if not named:
                kw["include_field_in_label"] = False
            g = self.idx.create_cluster_cooccurrence_graph(**kw)
            names = {}
            for r in self.features:
                f, v = FIELDS[r[1] - 1], val(r[2])
                names.setdefault(f"{f}:{v}" if named else str(v), []).append([r[1] if named else 0, r[2]])
            step["nodes"] = [[n, d.get("document_count", -1),
                              [names.get(x, []) for x in (d["label"].split(", ") if size(n) else [])] if d["label"] or size(n) else []]
                             for n, d in g.nodes(data=True)]
            step["edges"] = [[a, b, frac(d["weight"])] for a, b, d in g.edges(data=True)]

        def size(cid):
            return min(k, len(self.clusters.get(cid, ())))
        return self.guarded({"k": "graph", "prop": "C20", "top": k, "named": int(named), "nodes": [], "edges": []}, run)


def record_bits(step, m, bs):
    step["match"] = list(m)
    step["weights"] = [list(x) for x in utilities.weight_bitslice(bs)]
    n = len(step["match"])
    before = [list(m), [list(b) for b in bs]]
    step["tops"] = [[k, list(utilities.bstm(m, bs, k))] for k in sorted({0, 1, 2, 3, 4, 5, 6, n - 1, n, n + 1}) if k >= 0]
    if [list(m), [list(b) for b in bs]] != before:
        step["exc"] = "the query was changed by selecting from it"


PLAIN = [v for v in VALUES if not (isinstance(v, str) and (v.lstrip("-").isdigit()))]


def random_corpus(rng, n_features, n_docs, words):
    nf = rng.randint(1, n_features)
    sets = model.random_docsets(rng, nf, rng.randint(1, n_docs))
    nfields = rng.randint(1, 3)
    vocab = rng.sample([v for v in PLAIN if not words or isinstance(v, str)], min(nf, 12))
    docs = {}
    for i, s in enumerate(sets):
        f, v = FIELDS[rng.randrange(nfields)], rng.choice(vocab)
        for d in s:
            docs.setdefault(d, {}).setdefault(f, set()).add(v)
    return FullCorpus([(d, docs.get(d, {})) for d in range(n_docs)])


def large_corpus(rng, n_docs, n_features, per_doc=(1, 1, 2, 3), fields=1):
    """many documents and features, every feature in few documents"""
    docs = []
    for d in range(n_docs):
        rec = {}
        for _ in range(rng.choice(per_doc)):
            f = rng.randrange(n_features)
            rec.setdefault(FIELDS[f % fields], set()).add(val(f + 1))
        docs.append((d, rec))
    return FullCorpus(docs)


def large_world(c, rng, n_docs, n_features, n_clusters, cls=World, **kw):
    w = cls(c, rng, corpus=large_corpus(rng, n_docs, n_features, **kw), edits=0)
    w.idx.initialise_clusters(n_clusters)
    w.snapshot()
    return w


def heavy_world(c, rng, n_docs, cls=World):
    """features of very different sizes"""
    sets = [{d for d in range(n_docs) if rng.random() < p} for p in (0.9, 0.6, 0.5, 0.3, 0.2, 0.15, 0.1)]
    sets += [set(rng.sample(range(n_docs), k)) for k in (1, 1, 2, 3, 5, 9, 70)] + [{n_docs - 1}, set(range(n_docs - 400, n_docs))]
    w = cls(c, rng, corpus=FullCorpus([(d, {"text": {val(i + 1) for i, s in enumerate(sets) if d in s}}) for d in range(n_docs)]), edits=0)
    w.idx.initialise_clusters(rng.choice([2, 3, 4]))
    w.snapshot()
    return w
