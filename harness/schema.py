"""Databases of old versions and of other kinds, and opening them (SchemaTrace.tla)."""
import hashlib
import os
import random
import shutil
import sqlite3

from . import core, model, sim
from .corpora import *
from .faults import FaultGate, Injected, in_child, raiser
from .sim import index as hi, BitMap

MAGIC = 715973853
MigrationError = sim._index_schema.MigrationError

OLD_TRIGGERS = [
    "create trigger ensure_cluster before insert on feature_cluster begin "
    "insert or ignore into cluster(cluster_id) values (new.cluster_id); end",
    "create trigger ensure_cluster_update before update on feature_cluster when old.cluster_id != new.cluster_id begin "
    "insert or ignore into cluster(cluster_id) values (new.cluster_id); end",
    "create trigger delete_feature_cluster after delete on feature_cluster begin "
    "update cluster set feature_count = feature_count - 1 where cluster_id = old.cluster_id; "
    "delete from cluster where cluster_id = old.cluster_id and feature_count = 0; end",
    "create trigger update_cluster_feature_counts after update on feature_cluster when old.cluster_id != new.cluster_id begin "
    "update cluster set feature_count = feature_count - 1 where cluster_id = old.cluster_id; "
    "delete from cluster where cluster_id = old.cluster_id and feature_count = 0; end",
]
CHANGED_TRIGGER = ("create trigger mark_cluster_changed after insert on feature_cluster begin "
                   "insert or ignore into changed_cluster values (new.cluster_id); end")


def old_database(src, dst, v, rng):
    """Write the content of the index at src to dst as version v would have stored it."""
    a = model.raw(src)
    b = model.raw(dst)
    wal = rng.random() < 0.5
    if wal:
        b.execute("pragma journal_mode=wal")
    b.execute("begin")
    b.execute("create table doc_key (doc_id integer primary key, doc_key unique)")
    b.execute("create table inverted_index (feature_id integer primary key, field text not null, value not null, "
              "docs_count integer not null, doc_ids roaring_bitmap not null, unique (field, value))")
    b.execute("create table field_summary (field text primary key, distinct_values integer, min_value, max_value)")
    b.execute("create index docs_counts on inverted_index(docs_count)")
    cols = ["cluster_id integer primary key", "feature_count integer default 0"]
    if v >= 5:
        cols += ["docs_count integer default 0", "weight integer default 0", "doc_ids roaring_bitmap"]
    if v >= 8:
        cols += ["pinned bool default 0"]
    b.execute(f"create table cluster ({', '.join(cols)})")
    b.execute("create table feature_cluster (feature_id integer primary key references inverted_index(feature_id) on delete cascade, "
              "cluster_id integer references cluster(cluster_id) on delete cascade, docs_count integer"
              + (", pinned bool default 0" if v >= 8 else "") + ")")
    changed = v >= 5 or rng.random() < 0.5
    if changed:
        b.execute("create table changed_cluster (cluster_id integer primary key references cluster on delete cascade)")
    if rng.random() < 0.5:
        b.execute("create table skipgram_count (feature_id_a integer, feature_id_b integer, distance, skip_count)")
        b.execute("insert into skipgram_count values(1, 2, 3, 4)")
    if v >= 9 and rng.random() < 0.7:
        b.execute("create table settings (key primary key, value)")
        b.execute("insert into settings values('position_window_size', 5)")
    if v >= 9:
        b.execute("create table position_doc_map (field text not null, first_doc_id integer not null, last_doc_id integer not null, "
                  "docs_count integer not null, doc_ids roaring_bitmap not null, doc_boundaries roaring_bitmap not null, "
                  "primary key (field, first_doc_id))")
        b.execute("create table position_index (feature_id references inverted_index on delete cascade, first_doc_id integer, "
                  "position_count integer, positions roaring_bitmap, primary key (feature_id, first_doc_id))")

    def copy(table, names):
        for row in a.execute(f"select {names} from {table}"):
            b.execute(f"insert into {table}({names}) values({', '.join('?' * len(row))})", row)
    copy("doc_key", "doc_id, doc_key")
    copy("inverted_index", "feature_id, field, value, docs_count, doc_ids")
    # what the summary says in an old version doesn't matter
    if rng.random() < 0.7:
        copy("field_summary", "field, distinct_values, min_value, max_value")
    copy("cluster", "cluster_id, feature_count" + (", docs_count, weight, doc_ids" if v >= 5 else "") + (", pinned" if v >= 8 else ""))
    copy("feature_cluster", "feature_id, cluster_id, docs_count" + (", pinned" if v >= 8 else ""))
    if v >= 9:
        copy("position_doc_map", "field, first_doc_id, last_doc_id, docs_count, doc_ids, doc_boundaries")
        copy("position_index", "feature_id, first_doc_id, position_count, positions")
    for t in OLD_TRIGGERS:
        if rng.random() < 0.6:
            b.execute(t)
    if changed and rng.random() < 0.6:
        b.execute(CHANGED_TRIGGER)
    b.execute(f"pragma user_version={v}")
    b.execute(f"pragma application_id={MAGIC}")
    b.execute("commit")
    b.close()
    a.close()


def make_index(c, rng, positions=True, large=False):
    """A current index with a model, as a single file"""
    n = rng.choice([0, 1, 4, 12]) if not large else 1200
    docs = []
    for d in range(n):
        docs.append((rng.choice([d * 3, f"k{d}"]) if False else d * 3 + 1,
                     {"text": [rng.choice(WORDS[:8]) for _ in range(rng.randint(0, 6))],
                      "tags": {v for v in VALUES[:14] if rng.random() < 0.3}}))
        if large:
            docs[-1][1].update(text=[val(rng.randint(1, 700))], tags={val(rng.randint(700, 1200))})
    path = c.path("cur")
    corpus = FullCorpus(docs)
    idx = model.build(path, corpus, sim.SimPool(workers=2), pos=positions and rng.random() < 0.7, batch=rng.choice([2, 1000]) if not large else 10,
                      seed=rng.randrange(1000))
    if large:
        idx.initialise_clusters(200)
        idx.pin_features([r[0] for r in model.state(path)["fc"]][::2])
    elif n and rng.random() < 0.85:
        idx.initialise_clusters(rng.choice([1, 2, 4]))
        st = model.state(path)
        fids = [r[0] for r in st["fc"]]
        for _ in range(rng.randint(0, 3)):
            try:
                model.apply(idx, model.random_op(rng, model.state(path), fids or [1], 2, refine=False,
                                                 weights={"init": 0, "pinf": 9, "pinc": 9}))
            except Exception:
                pass
    idx.close()
    db = model.raw(path)
    db.execute("pragma wal_checkpoint(truncate)")
    db.execute("pragma journal_mode=delete")
    db.close()
    return path, corpus


class Numbers:
    def __init__(self):
        self.m = {}

    def __call__(self, x):
        return self.m.setdefault(x, len(self.m) + 1)


class History:
    def __init__(self, path):
        self.path = path
        self.case = {"epochs": [], "steps": [], "_how": []}
        self.num = Numbers()

    def obs(self):
        """looked at in a copy"""
        o = {"version": -1, "e": 0, "rest": 0, "pos": [], "fc": [], "cl": [], "sum": [], "pending": 0, "dump": 0, "bytes": 0}
        wal = os.path.exists(self.path + "-wal")
        if os.path.exists(self.path) and not os.path.isdir(self.path):
            with open(self.path, "rb") as f:
                data = f.read()
            # a database in WAL mode may always be checkpointed
            o["bytes"] = 0 if data[18:20] == b"\x02\x02" or wal else self.num(hashlib.sha256(data).hexdigest())
        else:
            o["bytes"] = self.num("missing")
            return self.index_content(o, [])
        tmp = self.path + "_copy"
        model.copy_db(self.path, tmp)
        try:
            db = model.raw(tmp)
            try:
                o["version"] = db.execute("pragma user_version").fetchone()[0]
                dump = "\n".join(db.iterdump()) + f"{o['version']} {db.execute('pragma application_id').fetchone()[0]}"
                o["dump"] = self.num(hashlib.sha256(dump.encode("utf-8", "surrogatepass")).hexdigest())
                tables = {r[0] for r in db.execute("select name from sqlite_master where type = 'table'")}
                if {"inverted_index", "doc_key", "feature_cluster", "cluster"} <= tables:
                    self.index_obs(db, o, tables)
                else:
                    self.index_content(o, [])
            finally:
                db.close()
        except sqlite3.DatabaseError:
            self.index_content(o, [])
        finally:
            for s in ("", "-wal", "-shm", "-journal"):
                if os.path.exists(tmp + s):
                    os.remove(tmp + s)
        return o

    def index_content(self, o, e):
        if e not in self.case["epochs"]:
            self.case["epochs"].append(e)
        o["e"] = self.case["epochs"].index(e) + 1
        return o

    def index_obs(self, db, o, tables):
        self.index_content(o, model.content(db))
        cols = lambda t: {r[1] for r in db.execute(f"pragma table_info({t})")}
        cc, fc = cols("cluster"), cols("feature_cluster")
        rest = [list(map(repr, db.execute("select doc_id, doc_key from doc_key order by 1")))]
        rows = []
        if "position_index" in tables:
            rows = [(f, a, n, tuple(BitMap.deserialize(p))) for f, a, n, p in db.execute(
                "select feature_id, first_doc_id, position_count, cast(positions as blob) from position_index order by 1, 2")]
            o["pos"] = [[f, a, n] for f, a, n, _ in rows]
            sums = {}
            for f, _, n, _ in rows:
                sums[f] = sums.get(f, 0) + n
            o["pos"] = [[f, n] for f, n in sorted(sums.items())]
        rest.append(repr(rows))
        if "position_doc_map" in tables:
            rest.append([repr((f, a, b, n, list(BitMap.deserialize(x)), list(BitMap.deserialize(y)))) for f, a, b, n, x, y in db.execute(
                "select field, first_doc_id, last_doc_id, docs_count, cast(doc_ids as blob), cast(doc_boundaries as blob) "
                "from position_doc_map order by 1, 2")])
        else:
            rest.append([])
        o["rest"] = self.num(repr(rest))
        pin = "pinned" if "pinned" in fc else "0"
        o["fc"] = [[f, c, int(bool(p)), d] for f, c, p, d in db.execute(
            f"select feature_id, cluster_id, {pin}, docs_count from feature_cluster order by 1")]
        if "doc_ids" in cc:
            pin = "pinned" if "pinned" in cc else "0"
            o["cl"] = [[c, n, d, w, int(bool(p)), list(BitMap.deserialize(x)) if x is not None else [-1]] for c, n, d, w, p, x in db.execute(
                f"select cluster_id, feature_count, docs_count, weight, {pin}, cast(doc_ids as blob) from cluster order by 1")]
        else:
            o["cl"] = [[c, n, -1, -1, 0, [-1]] for c, n in db.execute("select cluster_id, feature_count from cluster order by 1")]
        if "position_count" in cols("field_summary"):
            o["sum"] = [[fnum(f), n, vnum(a), vnum(b), p] for f, n, a, b, p in db.execute(
                "select field, distinct_values, min_value, max_value, position_count from field_summary")]
        if "changed_cluster" in tables:
            o["pending"] = db.execute("select count(*) from changed_cluster").fetchone()[0]

    def found(self, kind):
        self.case["steps"].append({"k": "found", "kind": kind, "obs": self.obs()})

    def opened(self, exc, may):
        self.case["steps"].append({"k": "open", "exc": exc, "may": int(may), "obs": self.obs()})

    def open(self, corpus=None, may=False, keep=False):
        exc, idx = attempt(self.path, corpus)
        if idx is not None and not keep:
            idx.close()
            idx = None
        self.opened(exc, may)
        return idx

    def is_index(self, truth, path=None):
        with core.deadline(30):
            try:
                got = hi.Index.is_index_db(path or self.path)
            except Exception as e:
                got = type(e).__name__
        self.case["steps"].append({"k": "isindex", "truth": int(truth), "got": int(got) if isinstance(got, bool) else -1,
                                   "obs": self.obs()})


def attempt(path, corpus):
    idx = None
    exc = ""
    with core.deadline(60):
        try:
            idx = hi.Index(path, corpus=corpus, pool=sim.SimPool(workers=2), random_seed=3)
        except KeyboardInterrupt:
            exc = "KeyboardInterrupt"
        except MigrationError:
            exc = "MigrationError"
        except Exception as e:
            exc = type(e).__name__
    return exc, idx


def upgrade(c, arg):
    """an old version is opened, reopened, edited"""
    v, seed, *large = arg
    rng = random.Random(seed)
    src, corpus = make_index(c, rng, v >= 9, bool(large))
    path = c.path("old")
    if v < 10:
        old_database(src, path, v, rng)
    else:
        shutil.copy(src, path)
    c.rm(src)
    h = History(path)
    h.case["_how"] = list(arg)
    h.found("index")
    if rng.random() < 0.3:
        h.is_index(True)
    for _ in range(rng.randint(1, 2)):
        h.open(corpus)
    if rng.random() < 0.3:
        h.is_index(True)
    out = [h.case]
    # the upgraded index is as good as any other
    idx = hi.Index(path, corpus=corpus, pool=sim.SimPool(workers=2), random_seed=3)
    m = model.History(path)
    m.case["_model"] = True
    for _ in range(4 if not large else 1):
        fids = [r[0] for r in m.case["epochs"][-1]]
        if rng.random() < 0.15:
            corpus = model.mutate_sets(rng, FullCorpus([(k, {f: set(x) for f, x in d.items()}) for k, d in corpus._docs]))
            m.reindex(idx, corpus, pos=rng.random() < 0.5, batch=rng.choice([2, 1000]))
        else:
            m.do(idx, model.random_op(rng, m.last, fids or [1], 2), observe=rng.random() < 0.4)
    idx.close()
    c.rm(path)
    return out + [m.case]


def faulty(c, arg):
    v, kind, where, k, seed = arg
    rng = random.Random(seed)
    path, corpus = c.path("oldf"), None
    h = History(path)
    h.case["_how"] = list(arg)
    if v:
        src, corpus = make_index(c, rng, v >= 9)
        old_database(src, path, v, rng)
        c.rm(src)
        h.found("index")
    else:
        h.found("fresh")
    if kind == "second":
        # another session opens it in the middle; it may be told to wait
        def boom():
            sim.BUSY_TIMEOUT = 0
            try:
                exc, idx = attempt(path, corpus)
                if idx is not None:
                    idx.close()
            finally:
                sim.BUSY_TIMEOUT = None
    else:
        boom = {"error": raiser(Injected("disk I/O error")), "interrupt": raiser(KeyboardInterrupt()),
                "crash": lambda: os._exit(7)}[kind]
    gate = FaultGate(path, at=k, where=where, what=boom)

    def go():
        with sim.gated(gate):
            exc, idx = attempt(path, corpus)
        if idx is not None:
            idx.close()
        return exc
    if kind == "crash":
        res = in_child(go)
        exc, fired = ("crash", True) if res is None else (res[1], False)
    else:
        exc, fired = go(), gate.fired
    h.opened(exc, fired)
    h.is_index(h.case["steps"][-1]["obs"]["version"] == 10 or bool(v))
    # later on
    h.open(corpus)
    h.open(corpus)
    c.rm(path)
    return h.case


def statements(c, v, seed):
    rng = random.Random(seed)
    path, corpus = c.path("oldn"), None
    if v:
        src, corpus = make_index(c, rng, v >= 9)
        old_database(src, path, v, rng)
        c.rm(src)
    g = FaultGate(path)
    with sim.gated(g):
        exc, idx = attempt(path, corpus)
    if idx is not None:
        idx.close()
    c.rm(path)
    return len(g.sql)


NAMES = ["plain.db", "with space.db", "100%.db", "%41.db", "a?b.db", "a?mode=memory.db", "a#b.db", "ünï.db", "a&b=c.db", "q'uote.db",
         'd"q.db', "semi;.db", "back\\slash.db", "file:x.db", "+plus.db", "no_extension", "日本.db", ":colon"]
FOREIGN = ["text", "bytes", "empty", "tables", "version", "corpus", "unknown", "truncated", "directory", "missing", "index", "header", "wal-index",
           "appid"]


def other(c, seed):
    """what isn't an index, or has an unknown version, or an odd name"""
    rng = random.Random(seed)
    d = os.path.join(c.workdir, f"names{os.getpid()}_{seed}")
    os.mkdir(d)
    cwd = os.getcwd()
    try:
        path = os.path.join(d, rng.choice(NAMES))
        kind = rng.choice(FOREIGN)
        truth, found, opens = False, "foreign", True
        live = None
        if kind in ("text", "bytes"):
            with open(path, "wb") as f:
                f.write(b"just some text\n" * rng.randint(1, 500) if kind == "text" else rng.randbytes(rng.choice([99, 512, 4096])))
            found = "file"
        elif kind == "empty":
            open(path, "wb").close()
            found = "fresh"
        elif kind in ("index", "wal-index", "truncated", "header"):
            src, corpus = make_index(c, rng)
            if rng.random() < 0.5:
                old_database(src, path, rng.randint(4, 9), rng)
            else:
                shutil.copy(src, path)
            c.rm(src)
            truth, found = True, "index"
            if kind == "wal-index":
                live = hi.Index(path, corpus=corpus, pool=sim.SimPool(workers=2))
                live.initialise_clusters(2)
            elif kind == "truncated":
                for s in ("-wal", "-shm"):
                    if os.path.exists(path + s):
                        os.remove(path + s)
                with open(path, "r+b") as f:
                    f.truncate(rng.choice([3, 50]))
                truth, found = False, "file"
            elif kind == "header":
                with open(path, "r+b") as f:
                    f.write(b"SQLite forma_")
                truth, found = False, "file"
        elif kind == "unknown":
            src, _ = make_index(c, rng)
            shutil.copy(src, path)
            c.rm(src)
            db = model.raw(path)
            db.execute(f"pragma user_version={rng.choice([1, 2, 3, 11, 12, 99, -1, 2**31 - 1])}")
            db.close()
            truth, found = True, "index"
        elif kind in ("tables", "version", "appid"):
            db = model.raw(path)
            if rng.random() < 0.3:
                db.execute("pragma journal_mode=wal")
            db.execute("create table cluster(a, b)" if rng.random() < 0.3 else "create table things(a, b)")
            db.execute("create table doc_key(x)")
            db.execute("insert into doc_key values('keep me')")
            if kind != "tables":
                db.execute(f"pragma user_version={rng.choice([1, 3, 4, 5, 7, 9, 10, 11])}")
            if kind == "appid" or rng.random() < 0.3:
                db.execute(f"pragma application_id={rng.choice([1, MAGIC - 1, MAGIC + 1, -MAGIC])}")
            db.close()
        elif kind == "corpus":
            if rng.random() < 0.5:
                x = sim.corpus.PlainTextSqliteCorpus(path)
                x.replace_docs(["a", "b"])
            else:
                x = sim.corpus.StackExchangeCorpus(path)
                x.db.execute("create table Site(site_id integer primary key, site_url unique)")
            x.close()
        elif kind == "directory":
            os.mkdir(path)
            found, opens = "file", False
        elif kind == "missing":
            found, opens = "fresh", rng.random() < 0.5
        h = History(path)
        h.case["_how"] = [seed, kind, os.path.basename(path)]
        h.found(found)
        as_path = rng.choice([path, path, __import__("pathlib").Path(path)])
        if rng.random() < 0.3:
            os.chdir(d)
            as_path = os.path.basename(path)
        if not (as_path == ":colon" or str(as_path).startswith("file:")):
            h.is_index(truth, as_path)
        else:
            h.is_index(truth)
        os.chdir(cwd)
        if opens and live is None:
            h.open()
            h.is_index(truth or found == "fresh")
            if found == "fresh":
                h.open()
        if live is not None:
            live.close()
        return h.case
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
