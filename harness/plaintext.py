"""Histories of a plain text corpus (PlainCorpusTrace.tla)."""
import os
import pickle
import random

from . import core, sim
from .faults import FaultGate, Injected, in_child, raiser

PlainTextSqliteCorpus = sim.corpus.PlainTextSqliteCorpus

WORDS = ["", " ", "a", "A", "the cat", "the  cat", "x\ny", "x\r\ny", "\r\n", "tab\there", "'", '"', "<b>bold</b> & co",
         "\x00", "nul\x00inside", "é", "e\u0301", "\u202e", "😀", "中文", "1", "1.0", "None", "null", "{}", "%s ?", ";--",
         "a" * 5000, "\ufeffbom", "\u2028", "z", "\x85", "don’t", "line\\n", '"quoted"', "0", "00", "1e5", "-1", "True"]


class Source(RuntimeError):
    pass


def split(xs):
    for x in xs:
        yield x


class History:
    def __init__(self, path, prop="C21"):
        self.path = path
        self.case = {"steps": [], "_how": []}
        self.table = {}

    def num(self, text):
        # what matters is the very same value of the same type
        return self.table.setdefault((type(text).__name__, text), len(self.table) + 1)

    def pairs(self, it):
        return [[k if isinstance(k, int) else -1, self.num(t)] for k, t in it]

    def post(self):
        """through a new session; checks that a document carries its own key"""
        c = PlainTextSqliteCorpus(self.path)
        try:
            try:
                return [[k if d["doc_id"] == k else -2, self.num(d["text"])] for k, d in c.docs()]
            except sim.sqlite3.OperationalError as e:
                if "no such table" in str(e) and not any(s["k"] == "replace" and not s["exc"] for s in self.case["steps"]):
                    return []
                raise
        finally:
            c.close()

    def replaced(self, texts, exc, may, must, corpus):
        self.case["steps"].append({"k": "replace", "texts": [self.num(t) for t in texts], "exc": exc, "may": may, "must": must,
                                   "intx": int(corpus is not None and corpus.db.in_transaction), "post": self.post()})

    def last(self):
        for s in reversed(self.case["steps"]):
            if s["k"] == "replace":
                return s["post"]
        return []

    def get(self, corpus, how, keys):
        if how == "docs":
            got = [(k if d["doc_id"] == k else -2, d["text"]) for k, d in corpus.docs(keys)]
        elif how == "tuple":
            got = [(k, d["text"]) for k, d in corpus.docs(tuple(keys))]
        elif how == "generator":
            got = [(k, d["text"]) for k, d in corpus.docs(iter(keys))]
        elif how == "item":
            got = [(k, d["text"]) for x in keys for k, d in corpus[x]]
        elif how == "html":
            got = corpus.render_docs_html(keys)
        elif how == "table":
            got = [(k, r["text"]) for k, r in corpus.render_docs_table(keys) if set(r) == set(corpus.table_fields)]
        elif how == "pickled":
            other = pickle.loads(pickle.dumps(corpus))
            got = [(k, d["text"]) for k, d in other.docs(keys)]
            other.close()
        elif how == "two":
            # two iterations taking turns in the same session
            a, b = corpus.docs(keys), corpus.docs(keys)
            got = []
            for _ in keys:
                x, y = next(a), next(b)
                got.append((x[0], x[1]["text"]) if x[1]["text"] == y[1]["text"] and x[0] == y[0] else (-3, ""))
            # closed in the order they were opened or the other way round would matter, so exhaust the inner one first
            b.close()
            a.close()
        self.case["steps"].append({"k": "get", "how": how, "keys": keys, "got": self.pairs(got), "intx": int(corpus.db.in_transaction)})

    def all(self, corpus, how):
        if how == "keys":
            got = list(corpus.keys())
        elif how == "docs":
            got = self.pairs((k, d["text"]) for k, d in corpus.docs())
        else:
            got = self.pairs((k, d["text"]) for k, d in corpus)
        self.case["steps"].append({"k": "all", "how": how, "got": got, "intx": int(corpus.db.in_transaction)})

    def look(self, rng, corpus):
        keys = [k for k, _ in self.last()]
        if not any(s["k"] == "replace" and not s["exc"] for s in self.case["steps"]):
            return
        for how in rng.sample(["docs", "tuple", "generator", "item", "html", "table", "pickled", "two"], 3):
            n = rng.choice([0, 1, 2, len(keys), len(keys) + 2])
            some = [rng.choice(keys) for _ in range(n)] if keys else []
            if n == len(keys):
                some = rng.sample(keys, n)
            self.get(corpus, how, some)
        for how in ("keys", "docs", "iter"):
            self.all(corpus, how)


def feed(rng, texts):
    how = rng.randrange(4)
    return [list, tuple, split, iter][how](texts)


def some_texts(rng, n=None):
    n = rng.choice([0, 1, 2, 3, 5, 9]) if n is None else n
    return [rng.choice(WORDS) for _ in range(n)]


def statements(path, texts):
    """how many statements a replacement takes"""
    g = FaultGate(path)
    c = PlainTextSqliteCorpus(path)
    with sim.gated(g):
        c.replace_docs(texts)
    c.close()
    return len(g.sql)


# ---- random histories, with a fault at a given statement -----------------------------------------------
def random_history(c, seed):
    rng = random.Random(seed)
    h = History(c.path("plain"))
    corpus = PlainTextSqliteCorpus(h.path)
    for _ in range(rng.randint(1, 5)):
        r = rng.random()
        texts = some_texts(rng)
        if r < 0.55:
            exc = attempt(lambda: corpus.replace_docs(feed(rng, texts)))
            h.replaced(texts, exc, 0, 0, corpus)
        elif r < 0.8:
            # texts which cannot be stored, or which stop coming
            bad = rng.randrange(len(texts) + 1)

            def it():
                for i, x in enumerate(texts + [None]):
                    if i == bad:
                        if kind == "raise":
                            raise Source("no more texts")
                        if kind == "interrupt":
                            raise KeyboardInterrupt()
                        yield "\ud800" if kind == "surrogate" else [1]
                    else:
                        yield x
            kind = rng.choice(["raise", "interrupt", "surrogate", "object"])
            exc = attempt(lambda: corpus.replace_docs(it()))
            h.replaced(texts, exc, 1, 1, corpus)
        elif r < 0.9:
            other = PlainTextSqliteCorpus(h.path)
            exc = attempt(lambda: other.replace_docs(feed(rng, texts)))
            h.replaced(texts, exc, 0, 0, other)
            other.close()
        else:
            corpus.close()
            corpus = pickle.loads(pickle.dumps(corpus))
        h.look(rng, corpus)
    corpus.close()
    c.rm(h.path)
    return h.case


def large(c, seed):
    """more texts than any batch, which stop coming late, or are the last of the process"""
    rng = random.Random(seed)
    h = History(c.path("plainl"))
    corpus = PlainTextSqliteCorpus(h.path)

    def texts(n):
        t = rng.choice(["a", "x y", "\n"])
        return [f"{t}{i % 700}" for i in range(n)]
    old = texts(rng.choice([1300, 2600]))
    h.replaced(old, attempt(lambda: corpus.replace_docs(feed(rng, old))), 0, 0, corpus)
    keys = [k for k, _ in h.last()]
    for how in ("docs", "html", "table"):
        h.get(corpus, how, rng.sample(keys, min(1100, len(keys))))
    for how in ("keys", "docs"):
        h.all(corpus, how)
    new = texts(2600)
    for bad in (1001, rng.randint(1, 2600), rng.choice([500, 512, 1000, 1024, 2048, 2599])):
        kind = rng.choice(["raise", "interrupt", "object", "crash"])

        def it():
            for i, x in enumerate(new):
                if i == bad:
                    if kind == "raise":
                        raise Source("no more texts")
                    if kind == "interrupt":
                        raise KeyboardInterrupt()
                    if kind == "crash":
                        os._exit(7)
                    yield [1]
                yield x
        if kind == "crash":
            corpus.close()
            in_child(lambda: PlainTextSqliteCorpus(h.path).replace_docs(it()))
            corpus = PlainTextSqliteCorpus(h.path)
            h.replaced(new, "crash", 1, 1, corpus)
        else:
            h.replaced(new, attempt(lambda: corpus.replace_docs(it())), 1, 1, corpus)
    h.replaced(new, attempt(lambda: corpus.replace_docs(feed(rng, new))), 0, 0, corpus)
    corpus.close()
    c.rm(h.path)
    return h.case


def attempt(fn):
    try:
        with core.deadline(30):
            fn()
    except core.Hang:
        raise
    except KeyboardInterrupt:
        return "KeyboardInterrupt"
    except Exception as e:
        return type(e).__name__
    return ""


def faulty(c, arg):
    """the k-th statement of a replacement fails, is interrupted, or is the last of the process"""
    kind, where, k, n, wal, seed = arg
    rng = random.Random(repr(arg))
    h = History(c.path("plainf"))
    h.case["_how"] = list(arg)
    if wal:
        corpus = PlainTextSqliteCorpus(h.path)
        old = some_texts(rng, 3)
        corpus.replace_docs(old)
        h.replaced(old, "", 0, 0, corpus)
        corpus.close()
    texts = some_texts(rng, n)
    boom = {"error": raiser(Injected("disk I/O error")), "interrupt": raiser(KeyboardInterrupt()),
            "crash": lambda: os._exit(7)}[kind]
    corpus = PlainTextSqliteCorpus(h.path)
    gate = FaultGate(h.path, at=k, where=where, what=boom)
    # the change may be stored before the call returns only once all texts have been taken
    taken = []

    def src():
        for t in texts:
            yield t
        taken.append(1)

    def go():
        with sim.gated(gate):
            return attempt(lambda: corpus.replace_docs(src()))
    if kind == "crash":
        corpus.close()

        def child():
            nonlocal corpus
            corpus = PlainTextSqliteCorpus(h.path)
            return go()
        res = in_child(child)
        if res is None:
            h.replaced(texts, "crash", 2, 1, None)
        else:
            h.replaced(texts, res[1] if res[0] == "ok" else "", 0, 0, None)
        corpus = PlainTextSqliteCorpus(h.path)
    else:
        exc = go()
        h.replaced(texts, exc, (2 if taken else 1) if gate.fired else 0, int(gate.fired), corpus)
    h.look(rng, corpus)
    # usable as before
    more = some_texts(rng)
    exc = attempt(lambda: corpus.replace_docs(more))
    h.replaced(more, exc, 0, 0, corpus)
    h.look(rng, corpus)
    corpus.close()
    c.rm(h.path)
    return h.case


# ---- behaviours of the specification -----------------------------------------------------------------
def replay(c, run):
    h = History(c.path("plainr"))
    h.case["_how"] = run
    values = ["one", "two\n", ""]
    corpus = PlainTextSqliteCorpus(h.path)
    reader = None
    opened = 0
    got = []
    pos = 0
    texts = []

    def rd(ev):
        nonlocal reader, opened, got
        if ev == "open":
            # the snapshot is taken by the first document; with no documents there's nothing to read
            rc = PlainTextSqliteCorpus(h.path)
            reader = (rc, rc.docs(), [])
            opened = len(h.case["steps"])
            try:
                reader[2].append(next(reader[1]))
            except StopIteration:
                pass
            except sim.sqlite3.OperationalError as e:
                if "no such table" not in str(e) or h.last():
                    raise
        elif ev == "step":
            if len(reader[2]) <= got:
                reader[2].extend([next(reader[1])])
            got += 1
        else:
            rest = [] if not h.case["steps"] else list(reader[1])
            h.case["steps"].append({"k": "reader", "at": opened, "got": h.pairs((k, d["text"]) for k, d in reader[2] + rest)})
            reader[0].close()
            reader = None
        if ev == "open":
            got = 0

    i = 0
    while i < len(run):
        ev = run[i]
        if ev[0] == "start":
            texts = [values[x - 1] for x in ev[1]]
            j = next(k for k in range(i + 1, len(run)) if run[k][0] in ("commit", "fail", "crash"))
            body, end = run[i + 1:j], run[j][0]

            def src():
                left = list(texts)
                for e in body:
                    if e[0] == "take":
                        yield left.pop(0)
                    else:
                        rd(e[0])
                if end == "fail":
                    raise Source("no more")
                if end == "crash":
                    os._exit(7)
            # readers record their steps before the replacement does, which is when they happened
            if end == "crash":
                if any(e[0] != "take" for e in body) or reader:
                    return []
                corpus.close()

                def child():
                    PlainTextSqliteCorpus(h.path).replace_docs(src())
                in_child(child)
                corpus = PlainTextSqliteCorpus(h.path)
                h.replaced(texts, "crash", 1, 1, corpus)
            else:
                exc = attempt(lambda: corpus.replace_docs(src()))
                h.replaced(texts, exc, int(end == "fail"), int(end == "fail"), corpus)
            i = j
        else:
            rd(ev[0])
        i += 1
    if reader:
        reader[0].close()
    corpus.close()
    c.rm(h.path)
    return h.case
