"""Histories of a corpus of tweets (TweetsTrace.tla)."""
import datetime as dt
import html
import os
import pickle
import random
import sqlite3

from . import cli, core, model, sim
from .sim import BitMap, index as hi

Corpus = sim.corpus.TwittersphereCorpus

SCHEMA = """
create table metadata(key text primary key, value);
create table collection_context(context_id integer primary key, label text);
create table tweet_at_time(tweet_id integer, retrieved_at datetime, context_id integer, directly_collected integer, user_id integer,
    conversation_id integer, text text, created_at datetime, replied_to_tweet_id integer, retweeted_tweet_id integer,
    quoted_tweet_id integer, like_count integer, reply_count integer, quote_count integer, retweet_count integer,
    primary key (tweet_id, retrieved_at));
create table user_at_time(user_id integer, retrieved_at datetime, username text, name text, profile_image_url text,
    primary key (user_id, retrieved_at));
create view tweet_latest as select * from tweet_at_time t where retrieved_at =
    (select max(retrieved_at) from tweet_at_time o where o.tweet_id = t.tweet_id);
create view user_latest as select * from user_at_time u where retrieved_at =
    (select max(retrieved_at) from user_at_time o where o.user_id = u.user_id);
create view directly_collected_tweet as select distinct tweet_id from tweet_at_time where directly_collected = 1;
create table tweet_hashtag(tweet_id integer, hashtag text, primary key (tweet_id, hashtag));
create table tweet_mention(tweet_id integer, mentioned_username text, primary key (tweet_id, mentioned_username));
create table tweet_url(tweet_id integer, retrieved_at datetime, url text, primary key (tweet_id, retrieved_at, url));
create table url(url text, retrieved_at datetime, expanded_url text, unwound_url text, primary key (url, retrieved_at));
"""
LABELS = ["search", "timeline", "replies to x"]
NAMES = ["Ann", "bob_1", "Zoë", "x", "d'or", "ann"]
WORDS = ["alpha", "Beta", "gamma", "don’t", "say", "“quoted”", "10", "&amp;", "&lt;b&gt;", "new\nline", "日本", "🙂"]
TAGS = ["Tag", "tag", "OTHER", "été", "Été", "x1"]
URLS = [("https://t.co/1", None, None), ("https://t.co/2", "https://A.example/x?y=1", None), ("https://t.co/3", "https://short.example/", "http://b.example:8080/long"),
        ("https://t.co/4", "https://twitter.com/x/status/1", None), ("https://t.co/5", "https://short.example/z", "https://twitter.com/i/5"),
        ("https://t.co/6", "https://twitter.com.example/x", None), ("https://t.co/7", "mailto:x@y", None)]


def tokens_of(word):
    """words of the specification: what is left after unescaping, straightening and lower casing"""
    return {"alpha": ["alpha"], "Beta": ["beta"], "gamma": ["gamma"], "don’t": ["don't"], "say": ["say"], "“quoted”": ['"', "quoted", '"'],
            "10": ["10"], "&amp;": ["&"], "&lt;b&gt;": ["<", "b", ">"], "new\nline": ["new", "line"], "日本": ["日", "本"], "🙂": ["🙂"]}[word]


def date(d):
    return [d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond]


class History:
    def __init__(self, c, seed, many=0):
        self.c, self.rng, self.path = c, random.Random(seed), c.path("tw")
        self.case = {"steps": []}
        db = sqlite3.connect(self.path)
        db.executescript(SCHEMA)
        db.execute("insert into metadata values('twittersphere_schema_version', ?)", [self.rng.choice([15, 16, 20])])
        db.executemany("insert into collection_context values(?, ?)", enumerate(LABELS, 1))
        if self.rng.random() < 0.7:
            db.execute("pragma journal_mode=WAL")
        db.commit()
        db.close()
        self.fixed = {}         # what never changes about a tweet
        self.ids = self.rng.sample(range(1, 30), self.rng.choice([2, 4, 7])) if not many else list(range(1001, 1001 + many))
        self.users = [101, 102, 103]
        self.times = [f"2022-0{m}-1{m}T0{h}:00:00.000Z" for m in range(1, 6) for h in range(5)]
        self.rng.shuffle(self.times)
        self.known = set()

    def fix(self, i):
        """author, text and references of a tweet"""
        if i in self.fixed:
            return self.fixed[i]
        rng = self.rng
        words = [rng.choice(WORDS) for _ in range(rng.randint(0, 5))]
        toks, parts = [], []
        for w in words:
            parts.append(w)
            toks += tokens_of(w)
            if rng.random() < 0.3:
                parts.append(rng.choice(["#Tag", "@some_one", "https://t.co/abc", "http://x.example/a?b#c", "#日本"]))
        d = dt.datetime(rng.choice([2019, 2020]), rng.choice([1, 2, 12]), rng.choice([1, 28]), rng.choice([0, 23]), rng.choice([0, 59]), 7,
                        rng.choice([0, 123000]), tzinfo=dt.timezone.utc)
        others = [x for x in self.ids + [99, 98] if x != i]
        ref = lambda p: rng.choice(others) if rng.random() < p else 0
        f = {"id": i, "user": rng.choice(self.users), "text": " ".join(parts), "toks": toks, "_created": d, "date": date(d),
             "conv": rng.choice(self.ids), "reply": ref(0.4), "retweet": ref(0.3), "quote": ref(0.3)}
        self.fixed[i] = f
        f["_tags"] = rng.sample(TAGS, rng.randint(0, 3))
        f["_mentions"] = rng.sample(NAMES, rng.randint(0, 2))
        return f

    def collect(self, n_tweets=None):
        """one file of the API: tweets, those they refer to, and their authors, all seen at the same time"""
        rng = self.rng
        if not self.times:
            return
        at = self.times.pop()
        n = int(at[5:7]) * 10 + int(at[12])
        tweets, users, tags, mentions = [], [], [], []
        db = sqlite3.connect(self.path, isolation_level=None)
        db.execute("begin")
        chosen = {i: 1 for i in rng.sample(self.ids, n_tweets or rng.randint(0, min(3, len(self.ids))))}
        for i in list(chosen):
            f = self.fix(i)
            for r in ("reply", "retweet", "quote"):
                # deleted tweets aren't sent along
                if f[r] and f[r] not in chosen and f[r] < 99 and rng.random() < 0.8:
                    chosen[f[r]] = 0
        authors = set()
        ctx = rng.randrange(len(LABELS))
        names = {}
        for i, direct in chosen.items():
            f = self.fix(i)
            authors.add(f["user"])
            urls = []
            for u, e, w in rng.sample(URLS, rng.choice([0, 0, 1, 3])):
                full = w or e or u
                host = {"https://t.co/1": "t.co", "https://A.example/x?y=1": "a.example", "http://b.example:8080/long": "b.example",
                        "https://twitter.com.example/x": "twitter.com.example", "mailto:x@y": ""}.get(full, "twitter.com")
                urls.append([full, host, int(full.startswith("https://twitter.com/"))])
                db.execute("insert into tweet_url values(?, ?, ?)", [i, at, u])
                db.execute("insert or ignore into url values(?, ?, ?, ?)", [u, at, e, w])
            # an edited tweet, or a corrected one
            text = f["text"] if rng.random() < 0.7 else f["text"] + " edited"
            toks = f["toks"] + (["edited"] if text != f["text"] else [])
            db.execute("insert into tweet_at_time values(?, ?, ?, ?, ?, ?, ?, ?, ?, ?, ?, ?, 1, 2, 3)",
                       [i, at, ctx + 1, direct, f["user"], f["conv"], text, f["_created"].isoformat(timespec="milliseconds").replace("+00:00", "Z"),
                        f["reply"] or None, f["retweet"] or None, f["quote"] or None, n])
            tweets.append({**{k: v for k, v in f.items() if k[0] != "_"}, "at": n, "direct": direct, "label": LABELS[ctx],
                           "text": text, "toks": toks, "urls": urls})
            for x in f["_tags"]:
                db.execute("insert or ignore into tweet_hashtag values(?, ?)", [i, x])
                tags.append([i, x.lower()])
            for x in f["_mentions"]:
                db.execute("insert or ignore into tweet_mention values(?, ?)", [i, x])
                mentions.append([i, x.lower()])
        for u in authors | set(rng.sample(self.users, rng.choice([0, 0, 1]))):
            name = rng.choice(NAMES)
            db.execute("insert into user_at_time values(?, ?, ?, ?, ?)", [u, at, name, name.upper() + " full", f"https://img.example/{u}"])
            users.append({"id": u, "at": n, "name": name})
        db.execute("commit")
        db.close()
        s = {"k": "collect", "tweets": tweets, "users": users, "tags": tags, "mentions": mentions}
        corpus = Corpus(self.path)
        try:
            keys = list(corpus.keys())
            s["keys"] = keys
            docs = list(corpus.docs())
            shown = dict(corpus.render_docs_html(keys))
            s["docs"] = [{"id": k, "doc": self.doc(d), "idx": self.idx(corpus.index(d)), "html": self.html(d, shown[k])} for k, d in docs]
            s["intx"] = int(corpus.db.in_transaction)
        finally:
            corpus.close()
        self.case["steps"].append(s)

    def doc(self, d):
        at = d["retrieved_at"]
        return {"text": d["text"], "at": int(at[5:7]) * 10 + int(at[12]), "user": d["user_id"], "name": d["user"]["username"],
                "labels": sorted(d["collection_labels"])}

    def html(self, d, shown):
        name = d["user"]["username"]
        return int(all(x in str(shown) for x in (d["text"], "@" + name, name.upper() + " full", f"/status/{d['tweet_id']}", d["created_at"],
                                                  f"<dd>{d['like_count']}</dd>")))

    def idx(self, f):
        """the features, by what kind of thing they are"""
        out = {"words": list(f.get("text", ())), "ids": [], "texts": [], "times": []}
        for field, values in f.items():
            if field != "text":
                for v in values:
                    if v is not None:
                        self.put(out, field, v)
        return self.sorted(out)

    def put(self, out, field, v):
        if field.startswith("created_"):
            x = dt.datetime.fromisoformat(v)
            out["times"].append([field, date(x) if x.tzinfo else []])
        elif isinstance(v, str):
            out["texts"].append([field, v])
        else:
            out["ids"].append([field, v])

    def sorted(self, out):
        for k in ("ids", "texts", "times"):
            out[k].sort()
        return out

    def last(self):
        return next((s["docs"] for s in reversed(self.case["steps"]) if s["k"] == "collect"), [])

    def look(self, corpus):
        rng = self.rng
        keys = [d["id"] for d in self.last()]
        if not keys:
            return
        for how in rng.sample(["docs", "html", "pickled", "item", "all", "iter"], 2):
            some = rng.choice([[], rng.sample(keys, len(keys)), [rng.choice(keys) for _ in range(3)]])
            if how == "html":
                full = dict(corpus.docs(some))
                got = [[k, self.html(full[k], h)] for k, h in corpus.render_docs_html(some)]
            elif how == "pickled":
                other = pickle.loads(pickle.dumps(corpus))
                got = [[k, self.doc(d)] for k, d in other.docs(some)]
                other.close()
            elif how == "item":
                got = [[k, self.doc(d)] for x in some for k, d in corpus[x]]
            elif how in ("all", "iter"):
                got = [[k, self.doc(d)] for k, d in (corpus.docs() if how == "all" else corpus)]
                some = keys
            else:
                got = [[k, self.doc(d)] for k, d in corpus.docs(iter(some))]
            self.case["steps"].append({"k": "get", "how": how, "keys": list(some), "got": got, "intx": int(corpus.db.in_transaction)})

    def index(self):
        rng = self.rng
        p = self.path + ".index"
        args = ["twittersphere-corpus", "index", self.path, p]
        if rng.random() < 0.5:
            args += ["--doc-batch-size", str(rng.choice([1, 2]))]
        if rng.random() < 0.3:
            args += ["--index-positions", rng.choice(["True", "False"])]
        r = cli.run(args)
        s = {"k": "index", "ok": int(r.exit_code == 0), "got": [], "_exc": repr(r.exception)[:300]}
        self.case["steps"].append(s)
        if s["ok"]:
            idx = hi.Index(p, pool=sim.SimPool(workers=2))
            try:
                keys = dict(idx.db.execute("select doc_id, doc_key from doc_key"))
                got = {k: {"words": [], "ids": [], "texts": [], "times": []} for k in keys.values()}
                for field in [r[0] for r in idx.indexed_field_summary()]:
                    for v, n, docs in idx.iter_field_docs(field):
                        for d in docs:
                            if field == "text":
                                got[keys[d]]["words"].append(v)
                            else:
                                self.put(got[keys[d]], field, v)
                s["got"] = sorted([k, self.sorted(x)] for k, x in got.items())
            finally:
                idx.close()

    def refused(self):
        rng = self.rng
        p = self.c.path("other")
        what = rng.choice(["old", "unversioned", "other"])
        db = sqlite3.connect(p)
        if what != "other":
            db.executescript(SCHEMA)
            if what == "old":
                db.execute("insert into metadata values('twittersphere_schema_version', ?)", [rng.choice([0, 9, 14])])
            else:
                db.execute("insert into metadata values('version', 20)")
        elif rng.random() < 0.5:
            db.execute("create table doc(x)")
        db.commit()
        db.close()
        with open(p, "rb") as f:
            before = f.read()
        exc = ""
        try:
            Corpus(p).close()
        except Exception as e:
            exc = type(e).__name__
        with open(p, "rb") as f:
            self.case["steps"].append({"k": "refused", "what": what, "exc": exc, "same": int(f.read() == before)})
        self.c.rm(p)


def large(c, arg):
    """more tweets than any batch"""
    seed, n = arg
    h = History(c, seed, n)
    corpus = Corpus(h.path)
    for k in (n, n // 2):
        h.collect(k)
        h.look(corpus)
    h.index()
    corpus.close()
    c.rm(h.path)
    c.rm(h.path + ".index")
    return h.case


def random_history(c, seed):
    h = History(c, seed)
    rng = h.rng
    corpus = Corpus(h.path)
    for _ in range(rng.randint(1, 6)):
        r = rng.random()
        if r < 0.2 and h.last():
            other = Corpus(h.path)
            g = other.docs()
            got = [next(g)]
            at = len(h.case["steps"])
            db = sqlite3.connect(h.path)
            wal = list(db.execute("pragma journal_mode"))[0][0] == "wal"
            db.close()
            if wal:
                h.collect()
            got += list(g)
            h.case["steps"].append({"k": "reader", "at": at, "got": [[k, h.doc(x)] for k, x in got]})
            other.close()
        else:
            h.collect()
        h.look(corpus)
        if rng.random() < 0.3:
            h.index()
        if rng.random() < 0.2:
            corpus.close()
            corpus = pickle.loads(pickle.dumps(corpus))
    if rng.random() < 0.3:
        h.refused()
    corpus.close()
    c.rm(h.path)
    c.rm(h.path + ".index")
    return h.case
