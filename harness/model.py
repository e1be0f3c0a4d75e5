"""Driving the cluster model and recording histories (ModelTrace.tla)."""
import gc
import os
import random
import shutil

from . import core, sim
from .corpora import *
from .sim import index as hi, utilities, BitMap


def raw(path, **kw):
    return sim.raw_connect(path, isolation_level=None, **kw)


def content(path_or_db):
    """[[fid, field, value, docs]]"""
    db = raw(path_or_db) if isinstance(path_or_db, str) else path_or_db
    try:
        return [[fid, fnum(f), vnum(v), list(BitMap.deserialize(d))] for fid, f, v, d in db.execute(
            "select feature_id, field, value, cast(doc_ids as blob) as d from inverted_index order by feature_id")]
    finally:
        if isinstance(path_or_db, str):
            db.close()


def state(path_or_db):
    """The committed model"""
    db = raw(path_or_db) if isinstance(path_or_db, str) else path_or_db
    try:
        if isinstance(path_or_db, str):
            db.execute("begin")
        fc = [[f, c, int(bool(p)), d] for f, c, p, d in db.execute(
            "select feature_id, cluster_id, pinned, docs_count from feature_cluster order by 1")]
        cl = [[c, fcount, dcount, weight, int(bool(p)), list(BitMap.deserialize(d)) if d is not None else [-1]]
              for c, fcount, dcount, weight, p, d in db.execute(
                  "select cluster_id, feature_count, docs_count, weight, pinned, cast(doc_ids as blob) as d "
                  "from cluster order by 1")]
        return {"fc": fc, "cl": cl}
    finally:
        if isinstance(path_or_db, str):
            db.close()


NO_LISTS = {"top": [], "cfeats": [], "cdocs": [], "cquery": [], "ids": [-1], "pinned": []}


def row(r):
    return [r[0], fnum(r[1]), vnum(r[2]), r[3]]


def lists(idx, ks=(0, 1, 2, 3, 20)):
    ids = list(idx.cluster_ids)
    top = []
    for k in ks:
        res = idx.top_cluster_features(top_k=k) if k != 20 else idx.top_cluster_features()
        top.append([k, [[c, n, [row(r) for r in rows]] for c, n, rows in res]])
    cf, cd, cq = [], [], []
    for c in ids:
        for k in (1, 2, 10**9):
            res = idx.cluster_features(c, top_k=k) if k != 10**9 else idx.cluster_features(c)
            cf.append([c, k, [row(r) for r in res]])
        cd.append([c, list(idx.cluster_docs(c))])
        m, bs = idx.cluster_query(c)
        cq.append([c, list(m), [list(x) for x in utilities.weight_bitslice(bs)]])
    return {"top": top, "cfeats": cf, "cdocs": cd, "cquery": cq, "ids": ids,
            "pinned": sorted(idx.pinned_cluster_ids)}


REFINE = {"name": "refine", "iters": 1, "sel": [], "min": 1, "target": 0, "prob": 50, "exhaustive": 0, "probe": [],
          "tol": 5, "batches": -1, "topk": 2}


def apply(idx, op):
    """Apply a specification operation to the real index."""
    n = op["name"]
    if n == "merge":
        return idx.merge_clusters(list(op["cs"]))
    if n == "delclusters":
        return idx.delete_clusters(list(op["cs"]))
    if n == "delfeatures":
        return idx.delete_features(list(op["fs"]))
    if n == "create":
        return idx.create_cluster_from_features(list(op["fs"]))
    if n == "pinf":
        return idx.pin_features(list(op["fs"]), pinned=bool(op["on"]))
    if n == "pinc":
        return idx.pin_clusters(list(op["cs"]), pinned=bool(op["on"]))
    if n == "init":
        kw = {}
        if op["fields"]:
            kw["include_fields"] = [FIELDS[f - 1] for f in op["fields"]]
        if op["min"] != 1:
            kw["min_docs"] = op["min"]
        return idx.initialise_clusters(op["n"], **kw)
    if n == "refine":
        kw = dict(iterations=op["iters"], minimum_cluster_features=op["min"],
                  move_acceptance_probability=op["prob"] / 100, tolerance=op["tol"] / 100,
                  group_test_batches=None if op["batches"] < 0 else op["batches"], group_test_top_k=op["topk"])
        if op["sel"]:
            kw["cluster_ids"] = list(op["sel"])
        if op["target"]:
            kw["target_clusters"] = op["target"]
        elif op.get("_zero"):
            kw["target_clusters"] = 0
        if op["probe"]:
            kw["probe_query"] = BitMap(op["probe"])
        return idx.refine_clusters(**kw)
    if n == "observe":
        return None
    raise core.MachineryError(f"unknown operation {op}")


class History:
    """A recorded history of one database."""

    def __init__(self, path):
        self.path = path
        self.case = {"epochs": [content(path)], "steps": []}
        self.last = None
        self.record({"name": "load"}, "", None)

    def record(self, op, exc, ret, idx=None, post=None):
        self.last = post or state(self.path)
        self.case["steps"].append({
            "e": len(self.case["epochs"]), "op": op, "exc": exc,
            "ret": ret if isinstance(ret, int) and not isinstance(ret, bool) else -1,
            "post": self.last, "lists": lists(idx) if idx is not None else NO_LISTS})

    def epoch(self):
        c = content(self.path)
        if c != self.case["epochs"][-1]:
            self.case["epochs"].append(c)

    def do(self, idx, op, observe=False, limit=60):
        exc, ret = "", None
        with core.deadline(limit):
            try:
                ret = apply(idx, op)
            except core.MachineryError:
                raise
            except Exception as e:
                exc = f"{type(e).__name__}: {e}"
        self.record(op, exc, ret, idx if observe else None)
        return exc

    def reindex(self, idx, corpus, pos=False, batch=3):
        exc = ""
        idx.corpus = corpus
        with core.deadline(60):
            try:
                idx.index(doc_batch_size=batch, index_positions=pos)
            except Exception as e:
                exc = f"{type(e).__name__}: {e}"
        self.epoch()
        self.record({"name": "reindex"}, exc, None)
        return exc


# ---------------------------------------------------------------------------------------------------
# preparing databases
# ---------------------------------------------------------------------------------------------------
def feature_corpus(docsets, fields=None, n_docs=None, cls=FullCorpus):
    """A corpus in which feature i (value i of its field) has exactly the documents docsets[i]."""
    n = n_docs or (max((max(d) for d in docsets if d), default=0) + 1)
    docs = []
    for d in range(n):
        rec = {}
        for i, s in enumerate(docsets):
            if d in s:
                rec.setdefault(fields[i] if fields else "tags", set()).add(val(i + 1))
        docs.append((d, rec))
    return cls(docs)


def build(path, corpus, pool, pos=False, batch=1000, seed=None):
    idx = hi.Index(path, corpus=corpus, pool=pool, random_seed=seed)
    idx.index(doc_batch_size=batch, index_positions=pos)
    return idx


def random_docsets(rng, n_features, n_docs, density=None):
    out = []
    density = density or rng.choice([0.1, 0.25, 0.5])
    topics = [rng.sample(range(n_docs), max(1, int(n_docs * 0.4))) for _ in range(3)]
    for _ in range(n_features):
        t = rng.choice(topics)
        s = {d for d in range(n_docs) if rng.random() < (density if d not in t else min(1, 2.2 * density))}
        out.append(s or {rng.randrange(n_docs)})
    return out


def copy_db(src, dst):
    # leaked connections must not be closed (removing the log) half way
    was = gc.isenabled()
    gc.disable()
    try:
        _copy_db(src, dst)
    finally:
        if was:
            gc.enable()


def _copy_db(src, dst):
    for s in ("-wal", "-shm"):
        if os.path.exists(src + s) and os.path.getsize(src + s):
            shutil.copy(src + s, dst + s)
    shutil.copy(src, dst)


def template(c, corpus, pos=False, name="tpl"):
    """An indexed database as a single file, to be copied."""
    p = c.path(name)
    idx = build(p, corpus, sim.SimPool(workers=2), pos=pos)
    idx.close()
    db = raw(p)
    db.execute("pragma wal_checkpoint(truncate)")
    db.close()
    return p


# ---------------------------------------------------------------------------------------------------
# random operations
# ---------------------------------------------------------------------------------------------------
def random_op(rng, st, fids, nfields=1, refine=True, weights=None):
    cids = sorted({r[1] for r in st["fc"]})
    infc = [r[0] for r in st["fc"]]

    def cs(lo=0, hi=3):
        pool = cids + [max(cids, default=0) + 1, 99]
        return [rng.choice(pool if rng.random() < 0.3 or not cids else cids) for _ in range(rng.randint(lo, hi))]

    def fs(unknown=0.05):
        out = [rng.choice(fids) for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))]
        if rng.random() < unknown:
            out.insert(rng.randint(0, len(out)), 10**6)
        return out

    names = ["merge", "delclusters", "delfeatures", "create", "pinf", "pinc", "init"] + (["refine"] if refine else [])
    w = weights or {"merge": 4, "delclusters": 2, "delfeatures": 3, "create": 6, "pinf": 4, "pinc": 4, "init": 2,
                    "refine": 6}
    n = rng.choices(names, [w.get(x, 1) for x in names])[0]
    if not cids and n not in ("create",) and rng.random() < 0.7:
        n = "init"
    if n == "merge":
        return {"name": n, "cs": cs(0 if rng.random() < 0.1 else 1, 4)}
    if n == "delclusters":
        return {"name": n, "cs": cs(0, 2)}
    if n in ("delfeatures", "create"):
        return {"name": n, "fs": fs()}
    if n == "pinf":
        return {"name": n, "fs": fs(), "on": int(rng.random() < 0.65)}
    if n == "pinc":
        return {"name": n, "cs": cs(0, 2), "on": int(rng.random() < 0.65)}
    if n == "init":
        fields = sorted({rng.randint(1, nfields) for _ in range(rng.randint(1, 2))}) if rng.random() < 0.4 else []
        return {"name": n, "n": rng.choice([1, 2, 3, 4, 7]), "min": rng.choice([1, 1, 1, 2, 3]), "fields": fields}
    return random_refine(rng, st)


def random_refine(rng, st, **fixed):
    cids = sorted({r[1] for r in st["fc"]})
    k = len(cids)
    op = dict(REFINE)
    op["iters"] = rng.choice([0, 1, 1, 2, 3, 5]) if rng.random() < 0.3 else rng.choice([1, 2, 3])
    if cids and rng.random() < 0.5:
        op["sel"] = rng.sample(cids, rng.randint(1, k)) + ([777] if rng.random() < 0.1 else [])
    op["min"] = rng.choice([1, 1, 2, 3])
    op["target"] = rng.choice([0, 0, max(1, k - 1), max(1, k - 2), k, k + 1, k + 2, k + 4, 1, 2])
    op["_zero"] = rng.random() < 0.3
    op["prob"] = rng.choice([0, 20, 50, 100, 100])
    op["tol"] = rng.choice([0, 5, 30])
    op["batches"] = rng.choice([-1, 0, 1, 2, 3])
    op["exhaustive"] = int(op["batches"] == 0 or op["batches"] > 10**6)
    op["topk"] = rng.choice([1, 2, 3])
    docs = sorted({d for r in st["cl"] for d in r[5]})
    if docs and rng.random() < 0.25:
        op["probe"] = sorted(rng.sample(docs, rng.randint(1, len(docs))))
    op.update(fixed)
    return op


def random_history(c, rng, n_ops=12, n_features=8, n_docs=10, reopen=True, refine=True, reindex=0.0, observe=0.3,
                   weights=None, pool=None, ops=None):
    nf = rng.randint(2, n_features)
    nfields = rng.randint(1, 3)
    fields = [FIELDS[rng.randrange(nfields)] for _ in range(nf)]
    fields[:nfields] = FIELDS[:nfields][:nf]
    sets = random_docsets(rng, nf, rng.randint(2, n_docs))
    corpus = feature_corpus(sets, fields)
    path = c.path("hist")
    pool = pool or sim.SimPool(workers=rng.randint(1, 4), rng=random.Random(rng.random()))
    idx = build(path, corpus, pool, seed=rng.randrange(10**6))
    try:
        h = History(path)
        for i in range(n_ops):
            if reindex and rng.random() < reindex:
                corpus = mutate_sets(rng, corpus)
                h.reindex(idx, corpus, pos=rng.random() < 0.3, batch=rng.choice([1, 2, 3, 1000]))
                continue
            fids = [r[0] for r in h.case["epochs"][-1]]
            op = (ops or random_op)(rng, h.last, fids or [1], nfields, refine=refine, weights=weights)
            h.do(idx, op, observe=rng.random() < observe)
            if reopen and rng.random() < 0.1:
                idx.close()
                idx = hi.Index(path, corpus=corpus, pool=pool, random_seed=rng.randrange(10**6))
        return h.case
    finally:
        idx.close()
        c.rm(path)


def mutate_sets(rng, corpus):
    docs = []
    for k, d in corpus._docs:
        if rng.random() < 0.15:
            continue
        d = {f: {v for v in vs if rng.random() > 0.15} | ({rng.choice(VALUES)} if rng.random() < 0.2 else set())
             for f, vs in d.items()}
        docs.append((k, d))
    text = any(isinstance(k, str) for k, _ in corpus._docs)
    base = max((k for k, _ in corpus._docs if isinstance(k, int)), default=len(corpus._docs)) + 1
    for i in range(rng.choice([0, 1, 3])):
        k = f"new{rng.randrange(10**9)}" if text else base + i
        docs.append((k, {rng.choice(FIELDS[:3]): {rng.choice(VALUES[:12]) for _ in range(3)}}))
    rng.shuffle(docs)
    return type(corpus)(docs)


def heavy_history(c, rng):
    """One cluster whose features have more documents between them than 16 bits count."""
    n = rng.choice([260, 300])
    sets = [set(range(256)) - {rng.randrange(256)} for _ in range(n)] + [{256}, {0, 257}]
    path = c.path("heavy")
    idx = build(path, feature_corpus(sets, n_docs=258), sim.SimPool(workers=4, rng=random.Random(rng.random())))
    try:
        h = History(path)
        fids = [r[0] for r in h.case["epochs"][-1]]
        h.do(idx, dict(name="create", fs=fids), observe=True, limit=240)
        return h.case
    finally:
        idx.close()
        c.rm(path)


def large_history(c, rng, n, n_docs, n_clusters, observe=False, refine=False):
    """Few operations on many features at once, as batches have limits of their own."""
    sets = [{rng.randrange(n_docs) for _ in range(rng.choice([1, 1, 2, 3]))} for _ in range(n)]
    corpus = feature_corpus(sets, [FIELDS[rng.randrange(2)] for _ in sets], n_docs=n_docs)
    path = c.path("large")
    idx = build(path, corpus, sim.SimPool(workers=4, rng=random.Random(rng.random())), seed=rng.randrange(10**6))
    try:
        h = History(path)
        fids = [r[0] for r in h.case["epochs"][-1]]

        def do(**op):
            h.do(idx, op, observe=observe, limit=240)

        def clusters(part):
            ids = sorted({r[1] for r in h.last["fc"]})
            return rng.sample(ids, max(1, int(len(ids) * part)))
        if not refine:
            do(name="create", fs=rng.sample(fids, n))      # of features which are not in the model yet
        do(name="init", n=n_clusters, min=1, fields=[])
        if refine:
            do(**random_refine(rng, h.last, iters=1, prob=100, batches=rng.choice([-1, 12]), probe=[], sel=[], exhaustive=0))
            return h.case
        some = rng.sample(fids, len(fids) * 2 // 3)
        do(name="create", fs=some)
        do(name="pinf", fs=rng.sample(fids, n * 3 // 4), on=1)
        do(name="pinc", cs=clusters(0.9), on=1)
        do(name="delfeatures", fs=rng.sample(fids, n // 2))
        do(name="merge", cs=clusters(0.6))
        do(name="delclusters", cs=clusters(0.9))
        return h.case
    finally:
        idx.close()
        c.rm(path)
