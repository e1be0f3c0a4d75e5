"""Driving index() and recording what the index then answers (InversionTrace.tla)."""
import os
import random

from . import core, sim
from .corpora import *
from .sim import index as hi, BitMap


def features_of(idx):
    """every feature known to the index: fid -> (field, value)"""
    out = {}
    for f in FIELDS:
        for value, count, docs in idx.iter_field_docs(f, min_docs=0):
            out[idx.lookup_feature_id((f, value))] = (f, value)
    return out


def observe(idx, keynum):
    # the whole content through the API, except for the list of documents and features themselves
    docs = [[i, keynum.known(k)] for i, k in idx.db.execute("select doc_id, doc_key from doc_key")]
    feats = [[fid, fnum(f), vnum(v), c, list(d)] for fid, f, v, c, d in
             idx.db.execute("select feature_id, field, value, docs_count, doc_ids from inverted_index")]
    summary = [[fnum(f), n, vnum(a), vnum(b), p] for f, n, a, b, p in idx.indexed_field_summary()]
    fields = [s[0] for s in idx.indexed_field_summary()]
    positional = sorted(fnum(f) for f in idx.positional_fields)
    occ = []
    # of the values of large corpora only some
    big = sorted({val(x[2]) for x in feats if x[2] > len(VALUES)})
    values = VALUES + big[::max(1, len(big) // 100)]
    for f in FIELDS:
        for v in values:
            try:
                fid = idx.lookup_feature_id((f, v))
            except KeyError:
                continue
            res = idx.score_passages_dnf([[(f, v)] if (fid % 2) else [fid]], 0)
            out = []
            for d, ps in res.items():
                for p in ps:
                    out.append([d, p[1], p[2], p[3]] if p[0] == f else [d, -1, -1, -1])
            occ.append([fnum(f), vnum(v), out])
    lookups = []
    for f in FIELDS:
        for v in values:
            key = (f, v)
            try:
                fid = idx.lookup_feature_id(key)
            except KeyError:
                d2 = idx[max([x[0] for x in feats], default=0) + 1000]
                lookups.append([fnum(f), vnum(v), -1, list(idx[key]), list(d2), 0, 0])
                continue
            f2, v2 = idx.lookup_feature(fid)
            lookups.append([fnum(f), vnum(v), fid, list(idx[key]), list(idx[fid]), fnum(f2), vnum(v2)])
    iters = []
    for f in fields:
        for m in (0, 1, 2, 3):
            items = idx.iter_field_docs(f, min_docs=m) if m != 1 else idx.iter_field_docs(f)
            iters.append([fnum(f), m, [[vnum(v), n, list(d)] for v, n, d in items]])
    ids = [d[0] for d in docs]
    queries = [[], ids, ids[::2], ids[-1:]]
    keys = [[q, [[keynum.known(k), i] for k, i in idx.convert_query_to_keys(BitMap(q)).items()]] for q in queries]
    return {"docs": docs, "feats": feats, "summary": summary, "positional": positional, "occ": occ,
            "lookups": lookups, "iters": iters, "keys": keys}


EMPTY_OBS = {"docs": [], "feats": [], "summary": [], "positional": [], "occ": [], "lookups": [], "iters": [],
             "keys": []}


def prev_features(idx):
    return [[fid, fnum(f), vnum(v)] for fid, f, v in idx.db.execute(
        "select feature_id, field, value from inverted_index")]


def large_case(c, arg):
    """more documents, features and postings than any batch"""
    seed, n_docs, n_values, per_doc, pos = arg
    rng = random.Random(seed)
    docs = []
    for i in range(n_docs):
        n = rng.choice([0, 1, per_doc, 2 * per_doc])
        docs.append((i * 3, {"text": [val(rng.randint(1, n_values)) for _ in range(n)], "tags": {val(rng.randint(1, 40))}}))
    path = c.path("inv")
    keynum = Keys()
    case = {"steps": []}
    idx = hi.Index(path, pool=sim.SimPool(workers=3, rng=random.Random(seed)))
    try:
        for batch in (None, rng.choice([400, 10**6])):
            case["steps"].append(run_step(idx, SpecCorpus(docs), keynum, pos, batch))
            docs = [x for x in docs if rng.random() > 0.1] + [(10**6 + i, {"text": [val(n_values + 1 + i % 20)]}) for i in range(100)]
    finally:
        idx.close()
        c.rm(path)
    return case


def run_step(idx, corpus, keynum, pos, batch, workers=None, workdir=None):
    """One index() run as a step of InversionTrace."""
    for k in corpus.keys():
        keynum(k)
    prev = prev_features(idx)
    idx.corpus = corpus
    exc = ""
    with core.deadline(60):
        try:
            kw = {}
            if workers is not None:
                kw["workers"] = workers
            if workdir is not None:
                kw["working_dir"] = workdir
            if batch is not None:
                kw["doc_batch_size"] = batch
            idx.index(index_positions=pos, **kw)
        except Exception as e:
            exc = f"{type(e).__name__}: {e}"
    step = {"corpus": corpus_json(corpus, keynum), "pos": int(bool(pos)), "prev": prev, "exc": exc,
            "obs": observe(idx, keynum) if not exc else EMPTY_OBS,
            "_how": {"batch": batch, "workers": workers, "pos": pos}}
    return step


INDEXRUN = ("SPECIFICATION Spec\nCONSTANTS ND={nd} BS={bs} W={w} Faults={faults} Emit={emit}\n"
            "INVARIANTS ExactInversion OldOrNew NothingLost TempRemoved NoWriterAfterCleanup EachBatchOnce BoundedQueue\n"
            "CHECK_DEADLOCK FALSE\n")


def index_design(c, nd, bs, w):
    """The design of a run of index(), with faults and with the guarantee that it ends."""
    c.model("IndexRun", INDEXRUN.format(nd=nd, bs=bs, w=w, faults="TRUE", emit="FALSE")
            + "VIEW NoHist\nPROPERTY Terminates\n", name=f"IndexRun with faults ({nd} documents, batches of {bs}, {w} workers)")


def schedules(c, nd, bs, w, faults=False):
    r = c.model("IndexRun", INDEXRUN.format(nd=nd, bs=bs, w=w, faults=str(faults).upper(), emit="TRUE")
                + "INVARIANT EmitSchedule\n", name=f"IndexRun schedules ({nd} documents, batches of {bs}, {w} workers)")
    return r.records("SCHED")


def clean_sequences(corpus):
    return type(corpus)([(k, {f: ([x for x in v if x is not None] if isinstance(v, list) else v)
                              for f, v in d.items()}) for k, d in corpus._docs])


def schedule_case(c, arg, pos=None, **kw):
    """Replay one schedule of the specification."""
    sched, nd, bs, w, seed = arg
    rng = random.Random(seed)
    pos = rng.random() < 0.5 if pos is None else pos
    corpus = gen_corpus(rng, n_docs=nd, nones=True if pos else "all", **kw)
    path = c.path("sched")
    pool = sim.SimPool(workers=w, script=sched)
    idx = hi.Index(path, pool=pool)
    try:
        step = run_step(idx, corpus, Keys(), pos, bs, rng.choice([None, w]))
        step["_sched"] = sched
        return {"steps": [step]}
    finally:
        idx.close()
        c.rm(path)


def schedule_cases(c, rng, limit, pos=None, **kw):
    args = []
    for nd, bs, w in ((5, 1, 2), (6, 2, 3), (5, 1, 3)):
        ss = schedules(c, nd, bs, w)
        c.extra.setdefault("schedules", []).append({"documents": nd, "batch": bs, "workers": w, "of": len(ss),
                                                    "replayed": min(len(ss), limit)})
        if len(ss) > limit:
            ss = rng.sample(ss, limit)
        args += [(s, nd, bs, w, rng.randrange(2**30)) for s in ss]
    return c.drive(lambda c, a: schedule_case(c, a, pos, **kw), args)


def process_pool_case(c, seed, pos):
    """The same with real worker processes."""
    import concurrent.futures as cf
    import multiprocessing as mp
    rng = random.Random(seed)
    sim.use_fake_manager(False)
    path = c.path("real")
    try:
        with cf.ProcessPoolExecutor(3, mp_context=mp.get_context("fork")) as pool:
            idx = hi.Index(path, pool=pool)
            keynum = Keys()
            steps = []
            corpus = gen_corpus(rng, n_docs=23, nones=True)
            for b in (2, 7, 1000):
                # passages and lookups are then made in this process
                idx._pool = pool
                steps.append(run_step(idx, clean_sequences(corpus), keynum, pos, b))
                corpus = mutate(rng, corpus)
            idx.close()
    finally:
        sim.use_fake_manager(True)
        c.rm(path)
    return {"steps": steps}


def random_case(c, rng, steps=None, pool=None, positions=0.6, **kw):
    nsteps = steps or rng.choice([1, 1, 2, 3])
    keynum = Keys()
    path = c.path("inv")
    case = {"steps": []}
    corpus = None
    pool = pool or sim.SimPool(workers=rng.randint(1, 4), rng=random.Random(rng.random()), early=rng.random())
    idx = hi.Index(path, pool=pool)
    try:
        for i in range(nsteps):
            pos = rng.random() < positions
            nones = True if pos else "all"
            corpus = (gen_corpus(rng, nones=nones, **kw) if corpus is None else mutate(rng, corpus, nones=nones))
            if pos:
                # values of sequences can't be missing when positions are recorded
                corpus = clean_sequences(corpus)
            batch = rng.choice([1, 2, 3, 4, 7, 1000])
            step = run_step(idx, corpus, keynum, pos, batch, rng.choice([None, 1, 2, 5]))
            case["steps"].append(step)
            if i + 1 < nsteps and rng.random() < 0.5:
                idx.close()
                idx = hi.Index(path, pool=pool)
    finally:
        idx.close()
        c.rm(path)
    return case
