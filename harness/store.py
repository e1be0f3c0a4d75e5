"""Several sessions, one statement at a time (StoreTrace.tla)."""
import os
import random
import threading

from . import core, sim
from .model import *
from .faults import FaultGate, Injected, raiser, in_child

READS = ["top", "cfeats", "cdocs", "cquery", "ids", "pinned", "feature", "field", "pivot"]


def no_lists():
    return {**NO_LISTS, "feature": [], "field": [], "pivot": [], "haspinned": 0}


def do(idx, op):
    """-> (exc, ret, lists)"""
    L = no_lists()
    n = op["name"]
    try:
        if n == "top":
            res = idx.top_cluster_features(top_k=op["k"])
            L["top"] = [[op["k"], [[c, d, [row(r) for r in rows]] for c, d, rows in res]]]
        elif n == "cfeats":
            L["cfeats"] = [[op["c"], 10**9, [row(r) for r in idx.cluster_features(op["c"])]]]
        elif n == "cdocs":
            L["cdocs"] = [[op["c"], list(idx.cluster_docs(op["c"]))]]
        elif n == "cquery":
            m, bs = idx.cluster_query(op["c"])
            L["cquery"] = [[op["c"], list(m), [list(x) for x in utilities.weight_bitslice(bs)]]]
        elif n == "ids":
            L["ids"] = list(idx.cluster_ids)
        elif n == "pinned":
            L["pinned"], L["haspinned"] = sorted(idx.pinned_cluster_ids), 1
        elif n == "feature":
            L["feature"] = [[op["f"], list(idx[op["f"]])]]
        elif n == "field":
            L["field"] = [[op["f"], [[vnum(v), k, list(d)] for v, k, d in idx.iter_field_docs(FIELDS[op["f"] - 1])]]]
        elif n == "pivot":
            res = list(idx.pivot_clusters_by_query(BitMap(op["q"]), top_k=5))
            L["pivot"] = [[c, [row(r) for r in rows]] for c, _, rows in res]
        elif n == "reindex":
            idx.corpus = op["_corpus"]
            idx.index(doc_batch_size=op["batch"])
        else:
            r = apply(idx, op)
            return "", r if isinstance(r, int) and not isinstance(r, bool) else -1, L
    except core.MachineryError:
        raise
    except Exception as e:
        return f"{type(e).__name__}: {e}", -1, L
    return "", -1, L


class Recorder:
    """Watches what is stored."""

    def __init__(self, path, prop):
        self.path = path
        self.db = sim.raw_connect(path, isolation_level=None, check_same_thread=False)
        self.case = {"prop": prop, "epochs": [content(self.db)], "steps": []}
        self.last = state(self.db)
        self.ver = self._version()
        self.step("commit", 0, {"name": "load"}, ret=-1, e=1, post=self.last)

    def _version(self):
        return list(self.db.execute("pragma data_version"))[0][0]

    def step(self, k, s, op, **kw):
        st = {"k": k, "s": s, "op": op, **kw}
        if k == "commit":
            st["want"] = []
        self.case["steps"].append(st)
        return st

    def look(self, s, op):
        """has the stored state changed?"""
        v = self._version()
        if v == self.ver:
            return None
        self.ver = v
        self.db.execute("begin")
        try:
            st, co = state(self.db), content(self.db)
        finally:
            self.db.execute("commit")
        if co not in self.case["epochs"]:
            self.case["epochs"].append(co)
        e = self.case["epochs"].index(co) + 1
        if st == self.last and e == next(x["e"] for x in reversed(self.case["steps"]) if x["k"] == "commit"):
            return None
        self.last = st
        return self.step("commit", s, op, ret=-1, e=e, post=st)

    def epoch_of(self, co):
        if co not in self.case["epochs"]:
            self.case["epochs"].append(co)
        return self.case["epochs"].index(co) + 1

    def run(self, s, idx, op, clear=1, exc=None):
        """a whole operation with nobody else around"""
        self.step("start", s, op)
        got, ret, L = do(idx, op)
        self.finish(s, idx, op, got, ret, L, clear)

    def finish(self, s, idx, op, exc, ret, L, clear):
        self.look(s, op)
        start = max(i for i, x in enumerate(self.case["steps"]) if x["k"] == "start" and x["s"] == s)
        for x in self.case["steps"][start:]:
            if x["k"] == "commit" and x["s"] == s:
                x["ret"] = ret
        self.step("end", s, op, exc=exc, ret=ret, clear=clear, lists=L, intx=int(bool(idx is not None and idx.db.in_transaction)))

    def close(self):
        self.db.close()


class Scheduler(sim.Gate):
    """
    Threads which run one at a time and can be switched at the boundaries of their statements.

    switches: [(thread, boundaries), ...]; afterwards the threads run to the end in order.
    """

    def __init__(self, rec, plans, make, switches, finer=False):
        self.rec, self.plans, self.make, self.switches = rec, plans, make, switches
        self.n = len(plans)
        self.go = [threading.Semaphore(0) for _ in plans]
        self.back = threading.Semaphore(0)
        self.budget = 0
        self.done = [False] * self.n
        self.cur = None
        self.curop = [None] * self.n
        self.idx = [None] * self.n
        self.error = None
        self.ran = [0] * self.n
        self.finer = finer
        self.me = threading.local()

    # -- called in the threads
    def _pause(self):
        self.back.release()
        self.go[self.me.i].acquire()

    def before(self, conn, sql):
        i = getattr(self.me, "i", None)
        if i is None or self.curop[i] is None or (conn.sim_worker and not self.finer):
            return
        if self.budget is not None:
            if self.budget <= 0:
                self._pause()
            if self.budget is not None:
                self.budget -= 1
        self.ran[i] += 1

    def after(self, conn, sql):
        i = getattr(self.me, "i", None)
        if i is None or self.curop[i] is None or conn.sim_worker:
            return
        self.rec.look(i + 1, self.curop[i])

    def _thread(self, i):
        try:
            self.me.i = i
            self.idx[i] = self.make(i)
            self._pause()
            for op in self.plans[i]:
                self.rec.step("start", i + 1, op)
                self.curop[i] = op
                others = [self.curop[j] is not None for j in range(self.n) if j != i]
                for j in range(self.n):
                    if j != i and self.curop[j] is not None:
                        self.disturbed[j] = True
                self.disturbed[i] = any(others)
                exc, ret, L = do(self.idx[i], op)
                self.curop[i] = None
                self.rec.finish(i + 1, self.idx[i], op, exc, ret, L, int(not self.disturbed[i]))
                if self.budget is not None and self.budget <= 0:
                    self._pause()
        except BaseException as e:
            self.error = core.classify(e)
        finally:
            try:
                if self.idx[i] is not None:
                    self.idx[i].close()
            except Exception:
                pass
            self.done[i] = True
            self.back.release()

    # -- called by the harness
    def _resume(self, i, budget):
        if self.done[i]:
            return
        self.budget = budget
        self.go[i].release()
        if not self.back.acquire(timeout=60):
            raise core.Hang("a session doesn't come back")

    def run(self):
        self.disturbed = [False] * self.n
        threads = [threading.Thread(target=self._thread, args=(i,), daemon=True) for i in range(self.n)]
        with sim.gated(self):
            for t in threads:
                t.start()
                if not self.back.acquire(timeout=60):
                    raise core.Hang("a session doesn't start")
            for i, k in self.switches:
                self._resume(i, k)
            for i in range(self.n):
                self._resume(i, None)
        for t in threads:
            t.join(20)
        if self.error:
            kind, text = self.error
            raise (core.MachineryError if kind == "machinery" else AssertionError)(text)


# ---------------------------------------------------------------------------------------------------
def world(c, rng, nf=None, n=None, reindexable=False, n_clusters=None):
    """An indexed database with a model; [path, corpora]"""
    nf = nf or rng.randint(3, 7)
    n = n or rng.randint(3, 7)
    fields = [FIELDS[i % 2] for i in range(nf)]
    sets = [{rng.randrange(n) for _ in range(rng.choice([1, 1, 2, 3]))} for _ in range(nf)] if n_clusters else random_docsets(rng, nf, n)
    corpus = feature_corpus(sets, fields, n_docs=n)
    other = None
    path = c.path("world")
    pool = sim.SimPool(workers=2)
    idx = build(path, corpus, pool, seed=1)
    if reindexable:
        other = mutate_sets(rng, corpus)
        while not other._docs:
            other = mutate_sets(rng, corpus)
        idx.corpus = other
        idx.index(doc_batch_size=2)
        co2 = content(path)
        idx.corpus = corpus
        idx.index(doc_batch_size=2)
    co1 = content(path)
    idx.initialise_clusters(n_clusters or rng.randint(2, 4))
    fids = [r[0] for r in co1]
    if rng.random() < 0.5:
        idx.pin_features([rng.choice(fids)])
    if rng.random() < 0.4:
        idx.pin_clusters([rng.choice(idx.cluster_ids)])
    idx.close()
    db = raw(path)
    db.execute("pragma wal_checkpoint(truncate)")
    db.close()
    w = {"path": path, "corpus": corpus, "fids": fids, "state": state(path), "n": n}
    if reindexable:
        w["other"] = other
        w["contents"] = (co1, co2)
    return w


def large_world(c, rng):
    """more features and clusters than a batch would have"""
    return world(c, rng, nf=1100, n=150, n_clusters=300)


def large_op(rng, w, name):
    """an edit of most of a large model"""
    fids, cids = w["fids"], sorted({r[1] for r in w["state"]["fc"]})
    some = lambda x: rng.sample(x, len(x) * 19 // 20)
    return {"merge": lambda: {"name": name, "cs": some(cids)},
            "delclusters": lambda: {"name": name, "cs": some(cids)},
            "delfeatures": lambda: {"name": name, "fs": some(fids)},
            "create": lambda: {"name": name, "fs": some(fids)},
            "pinf": lambda: {"name": name, "fs": some(fids), "on": 1},
            "pinc": lambda: {"name": name, "cs": some(cids), "on": 1},
            "init": lambda: {"name": name, "n": 260, "min": 1, "fields": []},
            "refine": lambda: random_refine(rng, w["state"], iters=1, min=1, target=200, prob=100, sel=[], probe=[], batches=12,
                                            exhaustive=0)}[name]()


def random_read(rng, w):
    cids = sorted({r[1] for r in w["state"]["fc"]}) or [1]
    n = rng.choice(READS)
    return {"top": lambda: {"name": n, "k": rng.choice([1, 2, 20])},
            "feature": lambda: {"name": n, "f": rng.choice(w["fids"])},
            "field": lambda: {"name": n, "f": rng.choice([1, 2])},
            "pivot": lambda: {"name": n, "q": sorted(rng.sample(range(w["n"]), rng.randint(1, w["n"])))}}.get(
        n, lambda: {"name": n, "c": rng.choice(cids)})()
