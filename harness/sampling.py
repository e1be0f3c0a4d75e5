"""Samples, exports and retrieval (SamplingTrace.tla)."""
import csv
import os
import random

from . import core, model, ranking, sim
from .ranking import large_corpus
from .corpora import *
from .corpora import hc
from .sim import index as hi, BitMap


class World(ranking.World):
    """Keys of any kind, in any order; edited and reindexed models."""

    def __init__(self, c, rng, plain=False, edits=4, reindex=0.2, n_docs=None, corpus=None):
        if corpus is not None:
            self.plain, self.files = False, []
            super().__init__(c, rng, corpus=corpus, edits=edits)
            return
        n = n_docs or rng.choice([1, 4, 9, 25])
        base = ranking.random_corpus(rng, rng.choice([4, 10, 25]), n, True)
        self.plain = plain
        self.files = []
        if plain:
            p = c.path("plain")
            self.files.append(p)
            texts = [" ".join(["t%d" % i, 'x, "y"\n z'] + ["w%d" % len(str(v)) for vs in d.values() for v in vs])
                     for i, (_, d) in enumerate(base._docs)]
            corpus = hc.PlainTextSqliteCorpus(p)
            corpus.replace_docs(texts)
            self.content = {t: i + 1 for i, t in enumerate(texts)}
        else:
            kind = rng.choice(["int", "gap", "str"])
            ks = {"int": list(range(1, n + 1)), "gap": rng.sample(range(-99, 10**6), n),
                  "str": [f"k'{rng.randint(0, 99)},\"{i}\"\nz" for i in range(n)]}[kind]
            rng.shuffle(ks)
            corpus = FullCorpus([(k, d) for k, (_, d) in zip(ks, base._docs)])
        super().__init__(c, rng, corpus=corpus, edits=edits, reindex=reindex)

    def edit(self, n, reindex=0.0):
        if not self.plain:
            return super().edit(n, reindex)
        for i in range(n):
            st = model.state(self.path)
            if not st["fc"]:
                self.idx.initialise_clusters(self.rng.randint(1, 5))
                continue
            op = model.random_op(self.rng, st, [r[0] for r in st["fc"]], 1, refine=False,
                                 weights={"create": 6, "merge": 2, "delclusters": 1, "init": 0})
            try:
                model.apply(self.idx, op)
            except (sim.sqlite3.Error, IndexError):
                pass        # unknown features, empty merges: C08
        self.snapshot()

    def snapshot(self):
        if not self.plain:
            super().snapshot()
            self.case["models"].pop()
            return self.take()
        # the values of texts aren't numbered
        db = model.raw(self.path)
        self.features = [[f, 1, 1, list(BitMap.deserialize(d))] for f, d in db.execute(
            "select feature_id, cast(doc_ids as blob) from inverted_index")]
        self.clusters = {}
        for f, cid in db.execute("select feature_id, cluster_id from feature_cluster"):
            self.clusters.setdefault(cid, []).append(f)
        db.close()
        self.docs = sorted({d for r in self.features for d in r[3]})
        self.take()

    def take(self):
        """the model in the form of SamplingTrace"""
        db = model.raw(self.path)
        rows = list(db.execute("select doc_id, doc_key from doc_key order by 1"))
        db.close()
        keys = [k for k, _ in self.corpus._docs] if not self.plain else sorted(k for _, k in rows)
        self.knum = {(type(k), k): i + 1 for i, k in enumerate(keys)}
        D = {r[0]: r[3] for r in self.features}
        self.all = [d for d, _ in rows]
        self.members = {cid: sorted({d for f in fs for d in D[f]}) for cid, fs in self.clusters.items()}
        self.case["models"].append({"docs": [[d, self.key(k)] for d, k in rows],
                                    "clusters": sorted(self.members.items())})

    def key(self, k):
        return self.knum.get((type(k), k), -1)

    def key_of_text(self, s):
        """key as written to a spreadsheet"""
        hits = [n for (_, k), n in self.knum.items() if str(k) == s]
        return hits[0] if len(hits) == 1 else -1

    def ident(self, what, x):
        """the number of the document some content belongs to, -1: none"""
        if self.plain:
            if what == "doc":
                x = x.get("text") if isinstance(x, dict) and set(x) == {"doc_id", "text"} and self.content.get(x["text"]) == self.key(x["doc_id"]) else None
            elif what == "table":
                x = x.get("text") if isinstance(x, dict) else None
            return self.content.get(x, -1)
        for (_, k), n in self.knum.items():
            if x == self.expected(what, k):
                return n
        return -1

    def expected(self, what, k):
        if what == "doc":
            return {"key": k, "fields": self.corpus._map[k]}
        if what == "html":
            return f"html of {k!r}"
        if what == "table":
            return {"one": f"one {k}\nnext", "two, \"x\"": f"\"{k}\", é", "unlisted": "no"}

    def close(self):
        super().close()
        if self.plain:
            self.corpus.close()
        for f in self.files:
            self.c.rm(f)

    # ------------------------------------------------------------------
    def some_docs(self):
        r = self.rng.random()
        if r < 0.2:
            return list(self.all)
        return sorted(self.rng.sample(self.all, self.rng.randint(0, len(self.all))))

    def sample(self, n, sel):
        out = {}

        def run(step):
            kw = {} if n == 100 else {"docs_per_cluster": n}
            if sel:
                kw["cluster_ids"] = list(sel)
            out["samples"], out["marks"] = self.idx.structured_doc_sample(**kw)
            step["rows"] = [[cid, list(x)] for cid, x in out["samples"].items()]
            step["marks"] = [[cid, list(x)] for cid, x in out["marks"].items()]
        self.guarded({"k": "sample", "prop": "C18", "n": n, "sel": list(sel), "rows": [], "marks": []}, run)
        return out

    def export(self, samples, marks):
        p = self.c.path("export") + ".csv"

        def run(step):
            self.idx.export_document_sample(samples, marks, p)
            with open(p, newline="", encoding="utf-8") as f:
                rows = list(csv.reader(f, strict=True))
            cols = ["text"] if self.plain else TableCorpus.table_fields
            head = ["doc_key", "sampled_cluster", *cols, *[f"cluster_{x}" for x in sorted(marks)]]
            got = rows[0] if rows else []
            step["header"] = int(sorted(got) == sorted(head) and len(set(got)) == len(got))
            at = {h: i for i, h in enumerate(got)}
            for r in rows[1:]:
                if len(r) != len(got) or not step["header"]:
                    step["out"].append([-1, [-1], -1, []])
                    continue
                ids = []
                for col in cols:
                    v = r[at[col]]
                    if self.plain:
                        ids.append(self.content.get(v, -1))
                    else:
                        m = [n for (_, k), n in self.knum.items() if self.expected("table", k)[col] == v]
                        ids.append(m[0] if len(m) == 1 else -1)
                on = [x for x in marks if r[at[f"cluster_{x}"]] == "1"]
                if any(r[at[f"cluster_{x}"]] not in ("", "1") for x in marks):
                    on.append(-1)
                step["out"].append([self.key_of_text(r[at["doc_key"]]), ids, int(r[at["sampled_cluster"]]), on])
        try:
            return self.guarded({"k": "export", "prop": "C18", "rows": [[x, list(d)] for x, d in samples.items()],
                                 "marks": [[x, list(d)] for x, d in marks.items()], "header": 0, "out": []}, run)
        finally:
            if os.path.exists(p):
                os.remove(p)

    def retrieve(self, k, q, sample=-1):
        def run(step):
            bm = BitMap(q)
            kw = {} if sample < 0 else {"random_sample_size": sample}
            if k == "keys":
                res = self.idx.convert_query_to_keys(bm)
                step["res"] = [[d, self.key(x), 0] for x, d in res.items()]
            elif k == "docs":
                step["res"] = [[d, self.key(x), self.ident("doc", doc)] for d, x, doc in self.idx.docs(bm)]
            elif k == "html":
                step["res"] = [[d, self.key(x), self.ident("html", y)] for d, x, y in self.idx.render_docs_html(bm, **kw)]
            else:
                step["res"] = [[0, self.key(x), self.ident("table", y)] for x, y in self.idx.render_docs_table(bm, **kw)]
            step["after"] = list(bm)
        return self.guarded({"k": k, "prop": "C19", "q": list(q), "sample": sample, "res": [], "after": []}, run)

    def bitmap(self, q, n):
        def run(step):
            bm = BitMap(q)
            r = self.idx.sample_bitmap(bm, n)
            step["res"] = list(r)
            r |= BitMap([10**6])        # what is returned is a copy
            step["after"] = list(bm)
        return self.guarded({"k": "bitmap", "prop": "C19", "q": list(q), "n": n, "res": [], "after": []}, run)

    def refused(self, corpus, op, want):
        """operations without the corpus they need"""
        path = os.path.join(self.c.workdir, f"refused{os.getpid()}.csv")
        before = sim_dump(self.path)
        idx = hi.Index(self.path, corpus=corpus, pool=self.pool)
        q = BitMap(self.all[:3])

        def consume(x):
            return x if x is None or isinstance(x, (list, dict)) else list(x)
        ops = {
            "index": lambda: idx.index(),
            "docs": lambda: consume(idx.docs(q)),
            "windows": lambda: consume(idx.extract_matching_feature_windows(q, [], 1)),
            "concordances": lambda: consume(idx.concordances(q, [], 1)),
            "passages": lambda: consume(idx.render_passages_table({d: [("tags", 0, 0, 1)] for d in q})),
            "html": lambda: consume(idx.render_docs_html(q)),
            "table": lambda: consume(idx.render_docs_table(q)),
            "export": lambda: idx.export_document_sample({0: q}, {0: q}, path),
        }
        step = {"k": "refused", "prop": "C19", "op": op, "want": want, "got": "", "same": 0, "m": len(self.case["models"]), "exc": ""}
        try:
            with core.deadline(60):
                ops[op]()
        except Exception as e:
            step["got"] = type(e).__name__
            step["_detail"] = repr(e)
        step["same"] = int(sim_dump(self.path) == before and not os.path.exists(path) and not idx.db.in_transaction)
        idx.close()
        if os.path.exists(path):
            os.remove(path)
        self.case["steps"].append(step)


def sim_dump(path):
    db = model.raw(path)
    try:
        return list(db.iterdump())
    finally:
        db.close()
