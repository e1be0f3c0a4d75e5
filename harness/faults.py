"""Faults at statement boundaries, and fingerprints of databases."""
import hashlib
import os
import pickle
import sqlite3

from . import core, sim
from .sim import BitMap


class Injected(sqlite3.OperationalError):
    pass


class FaultGate(sim.Gate):
    """
    Count the statements of the sessions on `path` and do something at the k-th.

    where: "before", "after" or "row" ; what: callable
    """

    def __init__(self, path=None, at=None, where="before", what=None, worker=False, observer=None):
        self.path, self.at, self.where, self.what, self.worker = path, at, where, what, worker
        self.n = 0
        self.rows = 0
        self.sql = []
        self.fired = False
        self.observer = observer
        self.busy = False

    def mine(self, conn):
        if getattr(conn, "sim_skip", False) or self.busy:
            return False
        if self.worker:
            return getattr(conn, "sim_worker", False)
        return not getattr(conn, "sim_worker", False) and conn.sim_path == self.path

    def fire(self):
        self.fired = True
        self.busy = True
        try:
            self.what()
        finally:
            self.busy = False

    def before(self, conn, sql):
        if not self.mine(conn):
            return
        self.n += 1
        self.rows = 0
        self.sql.append(sql)
        if self.observer:
            self.busy = True
            self.observer("before", self.n, sql)
            self.busy = False
        if self.n == self.at and self.where == "before":
            self.fire()

    def after(self, conn, sql):
        if not self.mine(conn):
            return
        if self.observer:
            self.busy = True
            self.observer("after", self.n, sql)
            self.busy = False
        if self.n == self.at and self.where == "after":
            self.fire()

    def row(self, conn, sql, i):
        if self.mine(conn) and self.n == self.at and self.where == "row" and i == 1 and not self.fired:
            self.fire()


def raiser(exc):
    # a new one each time: an exception keeps the frames it went through alive
    kind, args = type(exc), exc.args

    def f():
        raise kind(*args)
    return f


def fingerprint(path, features_by_id=()):
    """
    Everything a user can get at in an index database, independent of how new features are numbered.
    features_by_id: features whose number matters.
    """
    db = sim.raw_connect(path, isolation_level=None)
    try:
        db.execute("begin")
        out = {}
        key = {}
        inv = {}
        ids = {}
        for fid, f, v, n, d in db.execute(
                "select feature_id, field, value, docs_count, cast(doc_ids as blob) from inverted_index"):
            key[fid] = (f, type(v).__name__, v)
            inv[key[fid]] = (n, tuple(BitMap.deserialize(d)))
            if fid in features_by_id:
                ids[fid] = key[fid]
        out["inv"] = inv
        out["ids"] = ids
        out["docs"] = sorted(((i, repr(k)) for i, k in db.execute("select doc_id, doc_key from doc_key")))
        out["pos"] = sorted((repr(key.get(f)), first, n, tuple(BitMap.deserialize(p))) for f, first, n, p in db.execute(
            "select feature_id, first_doc_id, position_count, cast(positions as blob) from position_index"))
        out["map"] = sorted((f, a, b, n, tuple(BitMap.deserialize(x)), tuple(BitMap.deserialize(y)))
                            for f, a, b, n, x, y in db.execute(
            "select field, first_doc_id, last_doc_id, docs_count, cast(doc_ids as blob), cast(doc_boundaries as blob) "
            "from position_doc_map"))
        out["sum"] = sorted(map(repr, db.execute("select * from field_summary")))
        out["fc"] = sorted((repr(key.get(f)), c, n, int(bool(p))) for f, c, n, p in db.execute(
            "select feature_id, cluster_id, docs_count, pinned from feature_cluster"))
        out["cl"] = sorted((c, fcount, n, w, tuple(BitMap.deserialize(d)) if d is not None else None, int(bool(p)))
                           for c, fcount, n, w, d, p in db.execute(
            "select cluster_id, feature_count, docs_count, weight, cast(doc_ids as blob), pinned from cluster"))
        canon = repr([(k, sorted(map(repr, v.items())) if isinstance(v, dict) else v) for k, v in sorted(out.items())])
        return hashlib.sha256(canon.encode()).hexdigest()
    finally:
        db.close()


def in_child(fn):
    """Run fn in a forked process which then dies without any cleanup; returns what it sent through the pipe."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            import signal
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(60)
            try:
                res = ("ok", fn())
            except BaseException as e:
                res = core.classify(e)
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps(res))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else None
