"""Histories of commands (CliTrace.tla)."""
import gc
import traceback
import concurrent.futures
import csv
import hashlib
import io
import json
import multiprocessing as mp
import os
import random
import shutil
import subprocess
import sys

from . import core, model, sim, sx, web
from .corpora import *
from .sim import index as hi, BitMap

_cli = None


def cli():
    """the commands, with worker pools that live in this process"""
    global _cli
    if _cli is None:
        from click.testing import CliRunner

        class Pool(sim.SimPool):
            def __init__(self, *a, **kw):
                super().__init__(workers=2)
        concurrent.futures.ProcessPoolExecutor = Pool
        import hyperreal.cli as hc
        import hyperreal.server as hs
        random.Random.seed = web._fixed
        _cli = (hc, CliRunner, hs)
    return _cli


def run(args, input=None):
    hc, Runner, _ = cli()
    web.FixedSeed.value = 11
    try:
        with core.deadline(120):
            r = Runner().invoke(hc.cli, [str(a) for a in args], input=input)
    finally:
        web.FixedSeed.value = None
    # the process of a command ends, and closes everything
    todo, seen = [r.exception], []
    while todo:
        e = todo.pop()
        if e is not None and not any(e is x for x in seen):
            seen.append(e)
            traceback.clear_frames(e.__traceback__)
            todo += [e.__cause__, e.__context__]
    r.exc_info = None
    gc.collect()
    return r


def digest(path):
    if not os.path.exists(path):
        return "missing"
    with open(path, "rb") as f:
        return hashlib.sha1(f.read()).hexdigest()[:12]


def tables(path):
    """the content of a database, as it is seen by the next one to open it"""
    db = model.raw(path)
    try:
        return hashlib.sha1("\n".join(x for x in db.iterdump() if "sqlite_sequence" not in x).encode("utf-8", "replace")).hexdigest()[:12]
    finally:
        db.close()


# ---------------------------------------------------------------------------------------------------
# text files
# ---------------------------------------------------------------------------------------------------
TEXTS = ["", " ", "\t", "a cat", "  two  spaces ", "it's", '"', 'say "hi"', "\\", "\\n", "new\nline", "tab\tin", "é", "日本語", "\u2028",
         "\x0b", "\x0c", "\x1c", "\x85", "\u00a0", "😀", "null", "[1]", "1", "true", "A B C", "<b>x</b>", "ends\\", "%d", "a\rb"]
# what looks like a quoted string, but isn't one
RAW = ['"', '"a', 'a"', '"a" "b"', '"a"b"', '"\\x"', '"\\"', ' "a"', '"a" ', "'a'", '"tab\there"', '"\\ud83d"x', '["a"]', "null", '"a",', '"""']
BLANK = ["", " ", "\t \x0b", "\u00a0", "\u2028 ", '""', '" "', '"\\n"', '"\\u00a0"']


def lines(rng, n):
    """[(line, document or None when it is dropped)]"""
    out = []
    for _ in range(n):
        r = rng.random()
        if r < 0.35:
            t = rng.choice([x for x in TEXTS if "\n" not in x and "\r" not in x])
            if len(t) > 1 and t[0] == t[-1] == '"':
                continue
            out.append((t, "raw", t))
        elif r < 0.7:
            t = rng.choice(TEXTS) if rng.random() < 0.8 else "".join(rng.choice("ab \"\\\n/é") for _ in range(5))
            q = json.dumps(t, ensure_ascii=rng.random() < 0.5)
            if "/" in q and rng.random() < 0.5:
                q = q.replace("/", "\\/")
            out.append((q, "quoted", t))
        elif r < 0.85:
            t = rng.choice(RAW)
            out.append((t, "raw", t))
        else:
            t = rng.choice(BLANK)
            out.append((t, "blank", json.loads(t) if t[:1] == '"' else t))
    return out


def words(rng, n):
    vocab = ["w%d" % i for i in range(50)] if n > 50 else rng.sample(["a", "b", "cat", "dog", "d'or", "e", "über", "x", "10", "q", "r", "s", "t"], rng.randint(2, 12))
    out = []
    for _ in range(n):
        t = " ".join(rng.choice(vocab) for _ in range(rng.randint(1, 7)))
        out.append((t, "raw", t) if rng.random() < 0.7 else (json.dumps(t), "quoted", t))
        if rng.random() < 0.2:
            out.append((" ", "blank", " "))
    return out


class Session:
    """The files of a user, in a directory of their own"""
    group, Corpus = "plaintext-corpus", sim.corpus.PlainTextSqliteCorpus
    fields = [["text"], ["text", "text"], ["nothing"], ["nothing", "text"]]

    def __init__(self, c, seed):
        self.c, self.rng, self.seed = c, random.Random(seed), seed
        self.dir = os.path.join(c.workdir, f"cli{os.getpid()}_{seed}")
        os.mkdir(self.dir)
        self.texts = {}
        self.case = {"steps": []}
        self.big = self.rng.random() < 0.1

    def path(self, name):
        return os.path.join(self.dir, name)

    def close(self):
        shutil.rmtree(self.dir)

    def text(self, d):
        return d["text"]

    def num(self, text):
        return self.texts.setdefault(text, len(self.texts) + 1)

    def corpus(self, name="corpus.db"):
        if not os.path.exists(self.path(name)):
            return []
        c = self.Corpus(self.path(name))
        try:
            if not list(c.db.execute("select * from sqlite_master")):
                return []       # nothing was ever put into it
            return [self.num(self.text(d)) for _, d in c.docs()]
        finally:
            c.close()

    def observe(self):
        """everything there is afterwards"""
        o = {"corpus": self.corpus(), "index": "missing", "model": {"fc": [], "cl": []}, "content": []}
        p = self.path("index.db")
        if os.path.exists(p):
            o["index"] = tables(p)
            if hi.Index.is_index_db(p):
                o["model"] = model.state(p)
                db = model.raw(p)
                pairs = list(db.execute("select feature_id, field, value, cast(doc_ids as blob) from inverted_index order by 1"))
                db.close()
                o["content"] = [[fid, self.num(f), self.vnum(v, pairs), list(BitMap.deserialize(d))] for fid, f, v, d in pairs]
                self.pairs = {fid: (f, v) for fid, f, v, _ in pairs}
        return o

    def vnum(self, v, pairs):
        return sorted({x[2] for x in pairs}, key=lambda v: (isinstance(v, str), v)).index(v) + 1

    def step(self, kind, args, input=None, prepare=None, **more):
        pre = self.observe()
        before = {f: digest(self.path(f)) for f in os.listdir(self.dir)}
        twin = prepare() if prepare else None
        r = run(args, input=input)
        post = self.observe()
        s = {"k": kind, "ok": int(r.exit_code == 0), "pre": pre, "post": post, "lines": [], "op": {}, "twin": 1,
             "_args": [str(a).replace(self.dir, "") for a in args], "_exc": repr(r.exception)[:300], "files": 1,
             "rows": [], "head": 1, "k2": 0, "nodes": []}
        s.update(more)
        if twin:
            s["twin"] = int(twin(post))
        s["_before"] = before
        self.case["steps"].append(s)
        return s

    # -- commands ------------------------------------------------------------------------------------
    def write_text(self, ls):
        p = self.path("text.txt")
        data = "\n".join(x[0] for x in ls)
        if ls and self.rng.random() < 0.7:
            data += "\n"
        if self.rng.random() < 0.15:
            data = data.replace("\n", "\r\n")
        with open(p, "wb") as f:
            f.write(data.encode("utf-8"))
        # blank lines at the end of a file without a newline aren't lines
        return p

    def create(self, ls=None):
        rng = self.rng
        if ls is None:
            ls = lines(rng, rng.choice([0, 1, 2, 5, 12])) if rng.random() < 0.6 and not self.big else words(rng, 130 if self.big else rng.choice([3, 6, 12]))
        p = self.write_text(ls)
        bad = rng.random() < 0.06
        if bad:
            with open(p, "ab") as f:
                f.write(b"\n\xff\xfe broken\n")
        self.step("create", ["plaintext-corpus", "create", p, self.path("corpus.db")],
                  lines=[[k, self.num(d), int(not d.strip())] for _, k, d in ls], op={"readable": int(not bad)})
        p = self.path("corpus.db")
        db = model.raw(p)
        empty = not list(db.execute("select * from sqlite_master"))
        db.close()
        if empty:
            self.c.rm(p)        # nothing was ever put into it

    def index(self):
        rng = self.rng
        pos = rng.choice([None, True, False])
        args = [self.group, "index", self.path("corpus.db"), self.path("index.db")]
        if pos is not None:
            args += ["--index-positions", str(pos)]
        if rng.random() < 0.5:
            args += ["--doc-batch-size", str(rng.choice([1, 2, 3, 1000]))]
        there = os.path.exists(self.path("corpus.db"))

        def prepare():
            t = self.path("twin.db")
            model.copy_db(self.path("index.db"), t) if os.path.exists(self.path("index.db")) else None

            def check(post):
                corpus = self.Corpus(self.path("corpus.db"))
                idx = hi.Index(t, corpus=corpus, pool=sim.SimPool(workers=2))
                try:
                    idx.index(index_positions=pos is not False)
                finally:
                    idx.close()
                return self.content(t) == self.content(self.path("index.db")) and self.positions(t) == self.positions(self.path("index.db"))
            return check
        ok = there and (not os.path.exists(self.path("index.db")) or hi.Index.is_index_db(self.path("index.db")))
        self.step("index", args, prepare=prepare if ok else None, op={"there": int(there), "index": int(ok)})
        self.c.rm(self.path("twin.db"))

    def content(self, p):
        """by document and feature, as ids are only defined up to renaming"""
        db = model.raw(p)
        try:
            keys = dict(db.execute("select doc_id, doc_key from doc_key"))
            rows = sorted((f, v, sorted(keys[d] for d in BitMap.deserialize(b)), n) for f, v, b, n in db.execute(
                "select field, value, cast(doc_ids as blob), docs_count from inverted_index"))
            named = dict((r[0], (r[1], r[2])) for r in db.execute("select feature_id, field, value from inverted_index"))
            return rows, sorted(keys.values()), sorted(db.execute("select * from field_summary")), \
                sorted((named[f], c, p) for f, c, p in db.execute("select feature_id, cluster_id, pinned from feature_cluster")), \
                sorted((c, sorted(keys[d] for d in BitMap.deserialize(b)), w, n) for c, b, w, n in db.execute(
                    "select cluster_id, cast(doc_ids as blob), weight, docs_count from cluster"))
        finally:
            db.close()

    def positions(self, p):
        db = model.raw(p)
        try:
            return [r[0] for r in db.execute("select distinct field from position_index join inverted_index using(feature_id)")], \
                sorted(db.execute("select field, value, sum(position_count) from position_index join inverted_index using(feature_id) group by 1, 2"))
        finally:
            db.close()

    def model(self, clusters=None):
        rng = self.rng
        op = {"iters": 10, "clusters": 0, "min": 100, "restart": 0, "fields": [], "tol": 1, "prob": 50, "least": 1, "batches": -1, "topk": 2,
              "confirm": 0, "seed": -1}
        args = ["model", self.path("index.db")]

        def option(name, key, choices, p, scale=1):
            if rng.random() < p:
                op[key] = rng.choice(choices)
                args.extend([name, str(op[key] / scale if scale != 1 else op[key])])
        option("--iterations", "iters", [0, 1, 1, 2, 3], 0.85)
        option("--clusters", "clusters", [clusters] if clusters else [1, 1, 2, 25, 30] if self.big else [1, 2, 3, 4, 8], 0.7)
        option("--min-docs", "min", [1, 1, 1, 2], 0.9)
        option("--tolerance", "tol", [0, 5, 50, 100], 0.3, 100)
        option("--move-acceptance-probability", "prob", [0, 20, 100], 0.3, 100)
        option("--minimum-cluster-features", "least", [1, 2, 3], 0.3)
        option("--group-test-batches", "batches", [0, 0, 0, 1, 2], 0.8 if self.big else 0.3)
        option("--group-test-top-k", "topk", [1, 2, 3], 0.3)
        option("--random-seed", "seed", [0, 1, 5], 0.5)
        fields = []
        if rng.random() < 0.3:
            fields = rng.choice(self.fields)
            op["fields"] = [self.num(f) for f in fields]
            for f in fields:
                args += ["--include-field", f]
        if rng.random() < 0.3:
            op["restart"] = 1
            args.append("--restart")
        op["confirm"] = int(rng.random() < 0.7)
        p = self.path("index.db")
        valid = os.path.exists(p) and hi.Index.is_index_db(p)
        if valid and rng.random() < 0.3:
            # somebody pinned something with the library
            idx = hi.Index(p, pool=sim.SimPool(workers=2))
            try:
                st = model.state(p)
                if st["cl"] and rng.random() < 0.5:
                    idx.pin_clusters([rng.choice(st["cl"])[0]], rng.random() < 0.8)
                elif st["fc"]:
                    idx.pin_features([rng.choice(st["fc"])[0]], rng.random() < 0.8)
            finally:
                idx.close()

        def prepare():
            t = self.path("twin.db")
            model.copy_db(p, t)

            def check(post):
                idx = None
                web.FixedSeed.value = 11
                try:
                    idx = hi.Index(t, pool=sim.SimPool(workers=2), random_seed=None if op["seed"] < 0 else op["seed"])
                    has = bool(idx.cluster_ids)
                    if has and op["restart"] and not op["confirm"]:
                        return self.same(t, p)
                    n = op["clusters"] or None
                    if not has or op["restart"]:
                        n = n or 64
                        idx.initialise_clusters(n, min_docs=op["min"], include_fields=fields or None)
                    idx.refine_clusters(iterations=op["iters"], target_clusters=n, tolerance=op["tol"] / 100,
                                        move_acceptance_probability=op["prob"] / 100, minimum_cluster_features=op["least"],
                                        group_test_batches=None if op["batches"] < 0 else op["batches"], group_test_top_k=op["topk"])
                except (ValueError, IndexError):     # more is pinned than wanted
                    pass
                finally:
                    web.FixedSeed.value = None
                    if idx:
                        idx.close()
                return self.same(t, p)
            return check
        self.step("model", args, input="y\n" if op["confirm"] else "n\n", prepare=prepare if valid else None, op={**op, "index": int(valid)})
        self.c.rm(self.path("twin.db"))

    def same(self, a, b):
        return model.state(a) == model.state(b)

    def export(self):
        rng = self.rng
        out = self.path("clusters.csv")
        if rng.random() < 0.3:
            with open(out, "w") as f:
                f.write("something old\n" * rng.choice([1, 500]))
        old = digest(out)
        k = 10
        args = ["export", "clusters", self.path("index.db"), out]
        if rng.random() < 0.7:
            k = rng.choice([0, 1, 2, 3, 50])
            args += ["--top-k-features", str(k)]
        p = self.path("index.db")
        valid = os.path.exists(p) and hi.Index.is_index_db(p)
        s = self.step("export", args, op={"index": int(valid)}, k2=k)
        if s["ok"] and os.path.exists(out):
            with open(out, newline="", encoding="utf-8") as f:
                got = list(csv.reader(f))
            s["head"] = int(got[:1] == [["cluster_id", "feature_id", "field", "value", "docs_count"]])
            named = {r[0]: r for r in s["post"]["content"]}
            for r in got[1:]:
                try:
                    row = [int(r[0]), int(r[1]), self.num(r[2]), named[int(r[1])][2] if self.pairs[int(r[1])][1] == r[3] else -1, int(r[4])]
                except (ValueError, IndexError, KeyError):
                    row = [-1] * 5
                s["rows"].append(row)
        else:
            s["files"] = int(digest(out) == old)

    def graph(self):
        rng = self.rng
        out = self.path("graph.graphml")
        args = ["export", "graph", self.path("index.db"), out]
        kw = {}
        if rng.random() < 0.5:
            kw["top_k"] = rng.choice([1, 2, 8])
            args += ["--top-k-features", str(kw["top_k"])]
        if rng.random() < 0.5:
            kw["include_field_in_label"] = rng.random() < 0.5
            args.append("--include-field-in-label" if kw["include_field_in_label"] else "--exclude-field-in-label")
        p = self.path("index.db")
        valid = os.path.exists(p) and hi.Index.is_index_db(p)

        def prepare():
            def check(post):
                import networkx as nx
                idx = hi.Index(p, pool=sim.SimPool(workers=2))
                try:
                    want = idx.create_cluster_cooccurrence_graph(**kw)
                finally:
                    idx.close()
                got = nx.read_graphml(out, node_type=int)
                return dict(got.nodes(data=True)) == dict(want.nodes(data=True)) and \
                    {(frozenset(e[:2]), e[2]["weight"]) for e in got.edges(data=True)} == {(frozenset(e[:2]), e[2]["weight"]) for e in want.edges(data=True)}
            return check
        old = digest(out)
        s = self.step("graph", args, prepare=prepare if valid else None, op={"index": int(valid)})
        if not s["ok"]:
            s["files"] = int(digest(out) == old)
        if os.path.exists(out):
            os.remove(out)

    def sample(self):
        rng = self.rng
        out = self.path("sample.csv")
        if rng.random() < 0.3:
            with open(out, "w") as f:
                f.write("something old\n" * rng.choice([1, 500]))
        old = digest(out)
        args = [self.group, "sample", self.path("corpus.db"), self.path("index.db"), out]
        n = 50
        if rng.random() < 0.7:
            n = rng.choice([0, 0, 0, 60, 1] if self.big else [0, 1, 2, 3])
            args += ["--docs-per-cluster", str(n)]
        p = self.path("index.db")
        valid = os.path.exists(p) and hi.Index.is_index_db(p)
        there = os.path.exists(self.path("corpus.db"))
        # an index of another version of the corpus
        stale = valid and there and self.stale()
        s = self.step("sample", args, op={"index": int(valid), "there": int(there), "stale": int(bool(stale))}, k2=n)
        s["docs"], s["marks"] = [], []
        if s["ok"] and os.path.exists(out) and not stale:
            with open(out, newline="", encoding="utf-8") as f:
                got = list(csv.DictReader(f))
            db = model.raw(p)
            ids = {k: d for d, k in db.execute("select doc_id, doc_key from doc_key")}
            db.close()
            corpus = self.Corpus(self.path("corpus.db"))
            text = {k: {n: "" if d[n] is None else str(d[n]) for n in corpus.table_fields} for k, d in corpus.render_docs_table(list(corpus.keys()))}
            corpus.close()
            for r in got:
                key = int(r["doc_key"])
                s["docs"].append([ids.get(key, -1), int(r["sampled_cluster"]), int(key in text and all(r.get(n) == v for n, v in text[key].items()))])
                s["marks"].append([ids.get(key, -1), sorted(int(x[8:]) for x in r if x.startswith("cluster_") and r[x] == "1")])
        elif not s["ok"]:
            s["files"] = int(digest(out) == old)

    def stale(self):
        db = model.raw(self.path("index.db"))
        keys = {r[0] for r in db.execute("select doc_key from doc_key")}
        db.close()
        corpus = self.Corpus(self.path("corpus.db"))
        try:
            return not keys <= set(corpus.keys()) or self.indexed != self.corpus()
        finally:
            corpus.close()

    def serve(self):
        """what is served, without serving it"""
        hs = cli()[2]
        rng = self.rng
        seen = {}

        class Engine:
            def block(self):
                seen["blocked"] = True

        def launch(index_server, *a, **kw):
            seen["server"] = index_server
            idx = index_server.index(0)
            try:
                seen["file"] = os.path.realpath(str(idx.db_path))
                seen["model"] = model.state(str(idx.db_path))
                seen["corpus"] = [self.num(self.text(d)) for _, d in idx.corpus.docs()] if idx.corpus is not None else None
                seen["ids"] = sorted(idx.cluster_ids)
            finally:
                idx.close()
            return Engine()
        with_corpus = rng.random() < 0.6
        args = [self.group, "serve", self.path("corpus.db"), self.path("index.db")] if with_corpus else ["serve", self.path("index.db")]
        p = self.path("index.db")
        valid = os.path.exists(p) and hi.Index.is_index_db(p)
        there = not with_corpus or os.path.exists(self.path("corpus.db"))
        real = hs.launch_web_server
        hs.launch_web_server = launch
        try:
            s = self.step("serve", args, op={"index": int(valid), "there": int(there)})
        finally:
            hs.launch_web_server = real
        if s["ok"]:
            s["twin"] = int(bool(seen.get("blocked")) and seen["file"] == os.path.realpath(p) and seen["model"] == s["pre"]["model"]
                            and seen["corpus"] == (s["pre"]["corpus"] if with_corpus else None))
        else:
            s["files"] = int("server" not in seen)

    def foreign(self):
        """something else in place of the index"""
        rng = self.rng
        p = self.path("index.db")
        for x in ("", "-wal", "-shm"):
            if os.path.exists(p + x):
                os.remove(p + x)
        kind = rng.choice(["database", "text", "empty", "corpus"])
        if kind == "database":
            db = model.raw(p)
            db.execute("create table notes(a)")
            db.execute("insert into notes values('keep me')")
            db.execute(f"pragma user_version={rng.choice([0, 5, 10])}")
            db.close()
        elif kind == "corpus":
            corpus = sim.corpus.PlainTextSqliteCorpus(p)
            corpus.replace_docs(["mine"])
            corpus.close()
        else:
            with open(p, "w") as f:
                f.write("not a database\n" * 30 if kind == "text" else "")
        foreign_before = digest(p), kind
        for _ in range(rng.randint(1, 3)):
            which = rng.choice(["export", "graph", "sample", "serve"] + ([] if kind == "empty" else ["index", "model"]))
            if which == "sample" and not os.path.exists(self.path("corpus.db")):
                which = "export"
            self.refused(which, kind)
        os.remove(p)
        for x in ("-wal", "-shm"):
            if os.path.exists(p + x):
                os.remove(p + x)

    def refused(self, which, kind):
        p, out = self.path("index.db"), self.path("refused.out")
        args = {"export": ["export", "clusters", p, out], "graph": ["export", "graph", p, out], "serve": ["serve", p],
                "sample": [self.group, "sample", self.path("corpus.db"), p, out],
                "index": [self.group, "index", self.path("corpus.db"), p], "model": ["model", p, "--min-docs", "1"]}[which]
        before = digest(p)
        r = run(args)
        s = {"k": "refused", "ok": int(r.exit_code == 0), "pre": EMPTY, "post": EMPTY, "lines": [], "op": {}, "twin": int(digest(p) == before),
             "_args": [str(a).replace(self.dir, "") for a in args], "_exc": repr(r.exception)[:300], "_kind": kind,
             "files": int(not os.path.exists(out)), "rows": [], "head": 1, "k2": 0}
        self.case["steps"].append(s)

    def run(self, n):
        rng = self.rng
        self.indexed = None
        self.create()
        for _ in range(n):
            what = rng.choices(["create", "index", "model", "export", "graph", "sample", "serve", "foreign"], [2, 3, 5, 3, 1.5, 3, 1, 0.5])[0]
            if not os.path.exists(self.path("index.db")) and rng.random() < 0.8:
                what = "index"
            getattr(self, what)()
            if what == "index" and self.case["steps"][-1]["ok"]:
                self.indexed = self.corpus()
        return self.case


class Sites(Session):
    """The same with the dumps of sites"""
    group, Corpus = "stackexchange-corpus", sim.corpus.StackExchangeCorpus
    fields = [["Post"], ["Post", "Tag"], ["nothing"], ["UserPosting", "nothing"], ["created_year", "Post", "Comment"]]

    def __init__(self, c, seed):
        super().__init__(c, seed)
        self.w = sx.World()
        self.dumps = sx.Dumps(self.rng, self.w)

    def text(self, d):
        return json.dumps({k: sorted(map(str, v)) if isinstance(v, list) else str(v) for k, v in d.items()}, sort_keys=True)

    def create(self):
        rng = self.rng
        _, rows = self.dumps.dump(rng.choice([None, None, 8]))
        damage = (rng.choice(["posts", "comments", "users"]), rng.choice([0.0, 0.3, 0.95])) if rng.random() < 0.1 else None
        files = []
        for kind, p in zip(("posts", "comments", "users"), sx.write(self.c, rows, damage)):
            files.append(self.path(kind.title() + ".xml"))
            os.replace(p, files[-1])
        site = rng.choice(sx.SITES)
        t = self.path("twin.db")

        def prepare():
            if os.path.exists(self.path("corpus.db")):
                model.copy_db(self.path("corpus.db"), t)

            def check(post):
                corpus = self.Corpus(t)
                try:
                    corpus.add_site_data(*files, site)
                except Exception:
                    pass
                finally:
                    corpus.close()
                return tables(t) == tables(self.path("corpus.db"))
            return check
        self.step("site", [self.group, "add-site", *files, site, self.path("corpus.db")], prepare=prepare, op={"readable": int(not damage)})
        self.c.rm(t)
        p = self.path("corpus.db")
        db = model.raw(p)
        empty = not list(db.execute("select * from sqlite_master"))
        db.close()
        if empty:
            self.c.rm(p)        # nothing was ever put into it


def large(c, arg):
    """more lines and features than any batch or limit"""
    seed, n, vocab, clusters = arg
    s = Session(c, seed)
    rng = s.rng
    s.big = True

    def some(n):
        out = []
        for i in range(n):
            t = " ".join(f"w{rng.randrange(vocab)}" for _ in range(rng.randint(1, 3)))
            out.append((t, "raw", t) if rng.random() < 0.9 else (json.dumps(t), "quoted", t))
        return out
    try:
        s.indexed = None
        for i in range(2):
            s.create(some(n))
        s.index()
        s.indexed = s.corpus()
        s.model(clusters)
        s.export()
        s.sample()
        s.graph()
        s.case["_texts"] = {v: k for k, v in s.texts.items()}
        return s.case
    finally:
        s.close()


EMPTY = {"corpus": [], "index": "missing", "model": {"fc": [], "cl": []}, "content": []}


def history(c, seed):
    s = (Sites if seed % 4 == 0 else Session)(c, seed)
    try:
        case = s.run(c.n(9, 14))
        case["_texts"] = {v: k for k, v in s.texts.items()}
        return [case]
    finally:
        s.close()
