"""Positional queries (PassagesTrace.tla)."""
import random

from . import core, sim
from .corpora import *
from .sim import index as hi, BitMap

PWORDS = [w for w in WORDS if w and not w.isspace() and " " not in w]


class World:
    """An indexed corpus with positions, and the case to record into."""

    def __init__(self, c, corpus, batch, rng=None, workers=2, known=None):
        self.known = known
        self.path = c.path("pass")
        self.c = c
        self.corpus = corpus
        self.pool = sim.SimPool(workers=workers, rng=rng)
        self.idx = hi.Index(self.path, corpus=corpus, pool=self.pool, random_seed=(rng or random.Random(1)).randrange(10**6))
        with core.deadline(60):
            self.idx.index(doc_batch_size=batch, index_positions=True)
        num = {k: i + 1 for i, (k, _) in enumerate(corpus._docs)}
        self.num = {d: num[k] for d, k in self.idx.db.execute("select doc_id, doc_key from doc_key")}
        self.id = {n: d for d, n in self.num.items()}
        self.knum = num
        self.case = {"batch": batch, "docs": [
            [num[k], [[fnum(f), "set" if isinstance(v, set) else "seq", [vnum(x) for x in v]] for f, v in d.items()]]
            for k, d in corpus._docs], "steps": []}
        self.fields = sorted({f for _, d in corpus._docs for f in d})
        if self.known is None:
            self.known = [(f, v) for f in self.fields for v in VALUES if any(v in d.get(f, ()) and type(v) is not None for _, d in corpus._docs)]

    def close(self):
        self.idx.close()
        self.c.rm(self.path)

    def form(self, rng, feature):
        """a feature by id or by key"""
        return self.idx.lookup_feature_id(feature) if rng.random() < 0.5 else feature

    def guarded(self, step, fn):
        step["exc"] = ""
        try:
            with core.deadline(60):
                fn(step)
        except core.MachineryError:
            raise
        except Exception as e:
            step["exc"] = f"{type(e).__name__}: {e}"
        self.case["steps"].append(step)
        return step

    # ------------------------------------------------------------------
    def passages(self, rng, clauses, w):
        def run(step):
            q = [[self.form(rng, f) for f in cl] for cl in clauses]
            res = self.idx.score_passages_dnf(q, w)
            self.scored = res
            step["res"] = [[self.num.get(d, -1), [[fnum(p[0]), p[1], p[2], p[3]] for p in ps]] for d, ps in res.items()]
        return self.guarded({"k": "passages", "prop": "C05", "w": w, "res": [],
                             "clauses": [[[fnum(f), vnum(v)] for f, v in cl] for cl in clauses]}, run)

    def colloc(self, rng, field, values, w):
        def run(step):
            ids = [self.idx.lookup_feature_id((field, v)) for v in values]
            res, tq, tw = self.idx.count_collocations(field, rng.choice([list, set])(ids), w)
            out = []
            for fid, (n, total) in res.items():
                f, v = self.idx.lookup_feature(fid)
                out.append([fnum(f), vnum(v), n, total])
            step.update(res=out, tq=tq, tw=tw)
        return self.guarded({"k": "colloc", "prop": "C06", "field": fnum(field), "values": [vnum(v) for v in values], "w": w,
                             "res": [], "tq": -1, "tw": -1}, run)

    def windows(self, rng, docs, feats, w, sample, text):
        def run(step):
            q = BitMap(self.id[d] for d in docs)
            kw = {} if sample < 0 else {"random_sample_size": sample}
            fs = [self.form(rng, f) for f in feats]
            if text:
                sep = rng.choice([" ", "|", None])
                if sep:
                    kw["join_character"] = sep
                res = list(self.idx.concordances(q, fs, w, **kw))
                conv = lambda x: [vnum(y) for y in x.split(sep or " ")]
            else:
                res = list(self.idx.extract_matching_feature_windows(q, fs, w, **kw))
                conv = lambda x: [vnum(y) for y in x]
            step["res"] = [[self.num.get(d, -1), self.knum.get(k, -1),
                            [[fnum(f), [[vnum(v), [conv(x) for x in ws]] for v, ws in m.items()]] for f, m in fields.items()]]
                           for k, d, fields in res]
        return self.guarded({"k": "windows", "prop": "C07", "docs": list(docs), "w": w, "sample": sample, "text": int(text),
                             "feats": [[fnum(f), vnum(v)] for f, v in feats], "res": []}, run)

    def render(self, rng, asked, o, sample, batch):
        """asked: {doc number: [(field, first, last, n)]}"""
        def run(step):
            kw = {"passage_overhang": o} if o != 20 else {}
            if batch:
                kw["batch_size"] = batch
            if sample >= 0:
                kw["random_sample_size"] = sample
            res = list(self.idx.render_passages_table({self.id[d]: ps for d, ps in asked.items()}, **kw))
            out = []
            for d, k, rec in res:
                texts, sets = [], []
                for f, v in rec.items():
                    if isinstance(v, set):
                        sets.append([fnum(f), [vnum(x) for x in v]])
                    else:
                        texts.append([fnum(f), [[vnum(y) for y in x.split(" ")] for x in v]])
                out.append([self.num.get(d, -1), self.knum.get(k, -1), texts, sets])
            step["res"] = out
        return self.guarded({"k": "render", "prop": "C07", "o": o, "sample": sample, "res": [],
                             "asked": [[d, [[fnum(p[0]), p[1], p[2], p[3]] for p in ps]] for d, ps in asked.items()]}, run)


def all_docs(letters, n):
    """every sequence of up to n letters (None: a word which is never asked for)"""
    out, last = [], [[]]
    for _ in range(n):
        last = [x + [a] for x in last for a in letters]
        out += last
    return out


def random_world(c, rng, words=False, n_docs=None, nones=False):
    fields = rng.sample(FIELDS, rng.randint(1, 3))
    corpus = gen_corpus(rng, n_docs=n_docs, fields=fields, nones=False, max_len=rng.choice([5, 12, 30]), n_values=rng.randint(2, 6))
    if words:
        m = {}
        docs = []
        for k, d in corpus._docs:
            docs.append((k, {f: type(v)(m.setdefault(x, PWORDS[len(m) % len(PWORDS)]) for x in v) for f, v in d.items()}))
        corpus = SpecCorpus(docs)
    return World(c, corpus, rng.choice([1, 2, 3, 5, 1000]), rng, workers=rng.randint(1, 3))


def large_world(c, rng, n_docs, n_values, per_doc, batch=1000, n_known=30):
    """more documents and features than any batch or limit"""
    some = [val(1000 + i) for i in range(n_values)]
    docs = [(i, {"text": [rng.choice(some) for _ in range(rng.choice([1, per_doc, 2 * per_doc]))], "tags": {rng.choice(some)}})
            for i in range(n_docs)]
    seen = sorted({("text", v) for _, d in docs for v in d["text"]})
    return World(c, SpecCorpus(docs), batch, rng, known=rng.sample(seen, min(n_known, len(seen))))


WINDOWS = [0, 1, 1, 2, 3, 5, 8, 50]


def random_clauses(rng, known, k=None):
    k = k or rng.choice([1, 1, 2, 2, 3, 4])
    same = rng.random() < 0.75
    pool = known
    if same:
        f = rng.choice(known)[0]
        pool = [x for x in known if x[0] == f]
    return [[rng.choice(pool) for _ in range(rng.choice([1, 1, 2, 3]))] for _ in range(k)]
