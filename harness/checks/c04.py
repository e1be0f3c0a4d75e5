"""C04: indexing is atomic under failure, interruption and crash."""
import os
import random
import shutil
import sqlite3
import tempfile

from .. import core, sim
from ..faults import *
from ..inversion import *
from .. import model

SCEN = []
LARGE = [(1150, 10), (1500, 1000)]


class FlakyKeys(SpecCorpus):
    CORPUS_TYPE = "FlakyKeys"
    fail_at = None
    exc = RuntimeError

    def keys(self):
        for i, (k, _) in enumerate(self._docs):
            if i == self.fail_at:
                raise self.exc("injected failure of the corpus")
            yield k
        if self.fail_at == len(self._docs):
            raise self.exc("injected failure of the corpus")


def many_documents(rng, n, batch):
    """more documents and batches than anything is done in"""
    docs = [(i * 2, {"text": [val(rng.randint(1, 400)) for _ in range(rng.choice([0, 1, 3]))], "tags": {val(rng.randint(1, 30))}})
            for i in range(n)]
    return (SpecCorpus(docs), SpecCorpus([x for x in docs if rng.random() > 0.1] + [(10**6 + i, {"tags": {val(401)}}) for i in range(n // 8)]),
            batch)


def make_scenario(c, seed, large=None):
    """An indexed database with a model, and a changed corpus."""
    rng = random.Random(seed)
    fields = FIELDS[:3]
    pos_old, pos_new = rng.random() < 0.5, rng.random() < 0.6
    old = clean_sequences(gen_corpus(rng, n_docs=rng.randint(3, 7), fields=fields, keys="int"))
    if seed % 4 == 3:
        old = SpecCorpus([])
    new = clean_sequences(mutate(rng, old)) if old._docs else clean_sequences(gen_corpus(rng, n_docs=5, fields=fields))
    if large:
        old, new, batch = many_documents(rng, *large)
    path = c.path("scen")
    idx = hi.Index(path, corpus=old, pool=sim.SimPool(), random_seed=seed)
    idx.index(index_positions=pos_old)
    idx.initialise_clusters(rng.randint(2, 3) if not large else 120)
    fids = [r[0] for r in model.content(path)]
    if fids:
        idx.pin_features(fids[:2])
        idx.pin_clusters(idx.cluster_ids[:1])
        if len(fids) > 3:
            idx.delete_features(fids[2:3])
    idx.close()
    db = model.raw(path)
    db.execute("pragma wal_checkpoint(truncate)")
    db.close()
    batch, workers = batch if large else rng.choice([1, 2, 3]), rng.choice([1, 2, 3])
    s = {"path": path, "old": old, "new": new, "pos": pos_new, "batch": batch, "workers": workers, "fids": set(fids),
         "seed": seed}
    # an undisturbed run, itself validated against the specification
    p = c.path("ref")
    model.copy_db(path, p)
    s["fp_old"] = fingerprint(p, s["fids"])
    idx = hi.Index(p, pool=sim.SimPool(workers=workers))
    h = model.History(p)
    g = FaultGate(p)
    keynum = Keys()
    step = run_step_gated(idx, new, keynum, pos_new, batch, workers, g)
    h.epoch()
    h.record({"name": "reindex"}, step["exc"], None)
    idx.close()
    s["fp_new"] = fingerprint(p, s["fids"])
    s["sql"] = g.sql
    s["cases"] = ({"steps": [step]}, h.case)
    commits = [i for i, q in enumerate(g.sql) if q.strip().lower() in ("commit", "end")]
    s["commit"] = (commits[-1] + 1) if commits else len(g.sql)
    gw = FaultGate(p, worker=True)
    p2 = c.path("ref")
    model.copy_db(path, p2)
    idx = hi.Index(p2, corpus=new, pool=sim.SimPool(workers=workers))
    with sim.gated(gw):
        idx.index(doc_batch_size=batch, index_positions=pos_new, workers=workers)
    idx.close()
    s["worker_sql"] = len(gw.sql)
    c.rm(p)
    c.rm(p2)
    return s


def run_step_gated(idx, corpus, keynum, pos, batch, workers, g):
    for k in corpus.keys():
        keynum(k)
    prev = prev_features(idx)
    idx.corpus = corpus
    exc = ""
    try:
        with sim.gated(g):
            idx.index(doc_batch_size=batch, index_positions=pos, workers=workers)
    except Exception as e:
        exc = f"{type(e).__name__}: {e}"
    return {"corpus": corpus_json(corpus, keynum), "pos": int(bool(pos)), "prev": prev, "exc": exc,
            "obs": observe(idx, keynum) if not exc else EMPTY_OBS}


def name(s, path):
    fp = fingerprint(path, s["fids"])
    return "new" if fp == s["fp_new"] else "old" if fp == s["fp_old"] else "mixed"


def session_name(s, idx, path):
    """what the session itself sees outside of a transaction"""
    if idx.db.in_transaction:
        return "in-transaction"
    return name(s, path)


def count_files(d):
    return sum(len(f) + len(ds) for _, ds, f in os.walk(d))


def faulty_run(c, arg):
    """One run of index() with one fault."""
    si, kind, k = arg
    s = SCEN[si]
    path = c.path("run")
    work = tempfile.mkdtemp(dir=c.workdir)
    given = (len(repr(k)) + si + (k if isinstance(k, int) else 0)) % 3 != 0      # sometimes let index() choose the directory
    old_tmp = tempfile.tempdir
    tempfile.tempdir = work
    model.copy_db(s["path"], path)
    steps = []
    corpus = s["new"]
    workers = 2 if kind == "sched" else s["workers"]        # the schedules are those of two workers
    pool_kw = {"workers": workers}
    gate = FaultGate(path)
    fault = 1

    def run(idx):
        kw = {"working_dir": work} if given else {}
        with sim.gated(gate):
            idx.index(doc_batch_size=s["batch"], index_positions=s["pos"], workers=workers, **kw)

    before = 1
    if kind == "none":
        fault = 0
        seen = [name(s, path)]
        watch = sim.raw_connect(path, isolation_level=None)
        version = [None]

        def look(w, n, q):
            v = list(watch.execute("pragma data_version"))
            if v != version[0]:
                version[0] = v
                seen.append(name(s, path))
        gate.observer = look
    elif kind in ("error", "interrupt", "crash"):
        what = {"error": raiser(Injected("injected: disk I/O error")), "interrupt": raiser(KeyboardInterrupt()),
                "crash": lambda: os._exit(7)}[kind]
        gate.at, gate.what, gate.where = abs(k), what, "before" if k > 0 else "after"
        before = int(abs(k) < s["commit"] or (abs(k) == s["commit"] and k > 0))
    elif kind == "worker":
        gate = FaultGate(path, at=abs(k), what=raiser(Injected("injected: disk I/O error")), worker=True,
                         where="before" if k > 0 else "row")
    elif kind in ("keys", "keysint"):
        corpus = FlakyKeys(s["new"]._docs)
        corpus.fail_at = k
        corpus.exc = RuntimeError if kind == "keys" else KeyboardInterrupt
    elif kind == "doc":
        corpus = SpecCorpus(s["new"]._docs, fail_key=s["new"]._docs[k][0])
    elif kind == "sched":
        pool_kw["script"] = [x for x in k]
    pool = sim.SimPool(**pool_kw)
    if kind == "submit":
        pool.on_submit = k
    if kind == "sched":
        stop = next((x for x in k if x[0] in "IX"), None)
        act = raiser(KeyboardInterrupt()) if stop is None or stop[0] == "I" else (lambda: os._exit(7))
        if stop is not None:
            nb = -(-len(s["new"]._docs) // s["batch"])
            if stop[2] == "reading" and stop[1] <= nb:
                pool.on_submit, pool.submit_exc = stop[1], act
            elif stop[2] == "reading":
                pool.on_drain = act
            elif stop[2] == "merging":
                gate.at, gate.what = s["commit"] - 3, act
            elif stop[2] == "summarising":
                gate.at, gate.what = s["commit"], act
            else:      # while cleaning up: nothing left to disturb
                fault = 0
        elif not any(x[0] == "F" and x[1] <= -(-len(s["new"]._docs) // s["batch"]) for x in k):
            fault = 0
        crash = stop is not None and stop[0] == "X" and fault
    else:
        crash = kind == "crash"
    outcome = "done"
    if crash:
        def child():
            idx = hi.Index(path, corpus=corpus, pool=pool)
            run(idx)
        res = in_child(child)
        outcome = "crashed" if res is None else "done" if res[0] == "ok" else "failed"
        if outcome == "done":
            fault = 0
        sess = name(s, path)
        idx = hi.Index(path, corpus=s["new"], pool=sim.SimPool(workers=2))
    else:
        idx = hi.Index(path, corpus=corpus, pool=pool)
        try:
            with core.deadline(60):
                run(idx)
        except core.Hang:
            raise
        except BaseException as e:
            if isinstance(e, core.MachineryError):
                raise
            outcome = "failed"
        if kind in ("error", "interrupt", "worker") and not gate.fired:
            fault = 0
        sess = session_name(s, idx, path)
    if kind == "none":
        steps += [{"k": "read", "view": v} for v in dict.fromkeys(seen)]
        watch.close()
        # order of distinct values is the order of first appearance; look for a return to old
        if "new" in seen and "old" in seen[seen.index("new"):]:
            steps.append({"k": "read", "view": "old"})
    if outcome == "crashed":
        tmp = 0
    else:
        tmp = count_files(work)
    steps.append({"k": "end", "outcome": outcome, "session": sess, "view": name(s, path), "temp": tmp, "fault": fault,
                  "before": before})
    # the session is still usable, and so is a new one
    idx.corpus = s["new"]
    idx._pool = sim.SimPool(workers=2)
    other = hi.Index(path, corpus=s["new"], pool=sim.SimPool(workers=2))
    before_edit = model.state(path)
    fids = sorted(r[0] for r in model.content(path))
    ok = vis = 1
    if fids:
        for who in (idx, other):
            try:
                cid = who.create_cluster_from_features(fids[:1])
                vis = int([fids[0], cid] in [r[:2] for r in model.state(path)["fc"]])
            except Exception:
                ok = 0
            steps.append({"k": "edit", "ok": ok, "visible": vis})
        bad = 0
        try:
            idx.create_cluster_from_features([10**6])
        except Exception:
            bad = 1
        steps.append({"k": "refused", "ok": bad})
    idx.close()
    other.close()
    # indexing again from the original state of the model
    if name(s, path) != "new":
        for x in ("-wal", "-shm"):
            pass
        retry = hi.Index(path, corpus=s["new"], pool=sim.SimPool(workers=s["workers"]))
        restore(retry, path, before_edit)
        out = "done"
        try:
            retry.index(doc_batch_size=s["batch"], index_positions=s["pos"], workers=s["workers"], working_dir=work)
        except Exception:
            out = "failed"
        steps.append({"k": "retry", "outcome": out, "view": name(s, path),
                      "temp": count_files(work) if outcome != "crashed" or given is None else 0})
        retry.close()
    tempfile.tempdir = old_tmp
    shutil.rmtree(work, ignore_errors=True)
    c.rm(path)
    return {"steps": steps, "_how": [si, kind, k]}


def restore(idx, path, st):
    """undo the edits made for testing the session, with raw statements"""
    db = model.raw(path)
    db.execute("pragma foreign_keys=0")
    db.execute("begin")
    now = {r[0]: r for r in model.state(db)["fc"]}
    was = {r[0]: r for r in st["fc"]}
    for f in now:
        if f not in was:
            db.execute("delete from feature_cluster where feature_id=?", [f])
        elif now[f][1] != was[f][1]:
            db.execute("update feature_cluster set cluster_id=? where feature_id=?", [was[f][1], f])
    keep = {r[0]: r for r in st["cl"]}
    for (cid,) in list(db.execute("select cluster_id from cluster")):
        if cid not in keep:
            db.execute("delete from cluster where cluster_id=?", [cid])
        else:
            db.execute("update cluster set feature_count=?, docs_count=?, weight=?, pinned=?, doc_ids=? where cluster_id=?",
                       [*keep[cid][1:5], sim.db_utilities.save_bitmap(BitMap(keep[cid][5])), cid])
    for cid in keep:
        if not list(db.execute("select 1 from cluster where cluster_id=?", [cid])):
            r = keep[cid]
            db.execute("insert into cluster values(?,?,?,?,?,?)",
                       [cid, r[1], r[2], r[3], sim.db_utilities.save_bitmap(BitMap(r[5])), r[4]])
    db.execute("delete from changed_cluster")
    db.execute("commit")
    db.close()


def run(c):
    rng = random.Random(c.seed)
    index_design(c, 4, 1, 2)
    if c.thorough:
        index_design(c, 5, 1, 3)
    n = c.n(4, 16)
    SCEN[:] = [make_scenario(c, c.seed * 100 + i) for i in range(n)]
    args = []
    for i, s in enumerate(SCEN):
        m = s["commit"]
        args.append((i, "none", 0))
        for k in range(1, m + 1):
            args += [(i, "error", k), (i, "interrupt", k), (i, "interrupt", -k), (i, "crash", k)]
        for k in range(m, len(s["sql"]) + 1):
            args += [(i, "crash", -k)]
        for k in range(1, s["worker_sql"] + 1):
            args.append((i, "worker", k))
            args.append((i, "worker", -k))
        nd = len(s["new"]._docs)
        for k in range(nd + 1):
            args += [(i, "keys", k), (i, "keysint", k)]
        for k in range(nd):
            args.append((i, "doc", k))
        for k in range(1, -(-nd // s["batch"]) + 1):
            args.append((i, "submit", k))
    limit = c.n(1400, 20000)
    c.extra["faults"] = {"points": len(args), "run": min(len(args), limit)}
    if len(args) > limit:
        args = sorted(rng.sample(args, limit), key=repr)
    # many documents, with few of the faults
    for i, large in enumerate(LARGE):
        s = make_scenario(c, c.seed * 100 + 90 + i, large)
        SCEN.append(s)
        i, m, nd = len(SCEN) - 1, s["commit"], len(s["new"]._docs)
        args.append((i, "none", 0))
        ks = {m - 1, m - 3, m, *(rng.randint(1, m) for _ in range(c.n(3, 30)))}
        args += [(i, kind, k) for k in ks for kind in rng.sample(["error", "interrupt", "crash"], c.n(1, 3))]
        args += [(i, "worker", rng.randint(1, s["worker_sql"])) for _ in range(c.n(5, 30))]
        args += [(i, "worker", -rng.randint(1, s["worker_sql"])) for _ in range(c.n(1, 30))]
        args += [(i, kind, rng.choice([nd, nd - 1, rng.randint(0, nd)])) for kind in ("keys", "keysint") for _ in range(c.n(4, 20))]
        args += [(i, "doc", rng.choice([nd - 1, rng.randrange(nd)])) for _ in range(c.n(4, 20))]
        args += [(i, "submit", rng.randint(1, -(-nd // s["batch"]))) for _ in range(c.n(4, 20))]
    c.validate("InversionTrace", [s["cases"][0] for s in SCEN])
    c.validate("ModelTrace", [s["cases"][1] for s in SCEN])
    # the schedules of the specification with faults
    for nd, nb in ((4, 2), (3, 3)):
        fit = [i for i, s in enumerate(SCEN[:n]) if -(-len(s["new"]._docs) // s["batch"]) == nb] or list(range(n))
        for sc in schedules(c, nd, nd // nb, 2, faults=True):
            args.append((rng.choice(fit), "sched", sc))
    cases = c.drive(faulty_run, args)
    c.validate("IndexRunTrace", cases)
