"""Histories of a StackExchange corpus (SxTrace.tla)."""
import datetime as dt
import json
import os
import pickle
import random
import re
from xml.etree import ElementTree
from xml.sax.saxutils import escape

from . import core, sim
from .faults import FaultGate, Injected, in_child, raiser

StackExchangeCorpus = sim.corpus.StackExchangeCorpus
FILLER = ["alpha", "Beta", "gamma", "delta", "the", "zeta"]
SITES = ["https://a.example", "https://b.example", "https://c.example"]
LICENCES = ["CC 2.5", "CC 4.0"]


class World:
    """strings are known by the number in their marker word"""

    def __init__(self):
        self.strings = {}      # text -> number
        self.tokens = [["<Deleted User>"]]
        self.by = {"<Deleted User>": 1}
        self.extra = {}

    def make(self, rng, prefix="", words=None):
        n = len(self.tokens) + 1
        ws = [f"w{n}x"] + ([rng.choice(FILLER) for _ in range(rng.randint(0, 3))] if words is None else words)
        s = prefix + " ".join(ws)
        self.tokens.append([w.lower() for w in ws])
        self.by[s] = n
        return s, n

    def num(self, s):
        if s is None:
            return 0
        return self.by.get(s, -1)


def markers(html):
    return sorted({int(x) for x in re.findall(r"w(\d+)x", html)})


def body(rng, w):
    """html of a body with the words of its text and of its code blocks"""
    if rng.random() < 0.1:
        return None, 0, [], [], []
    if rng.random() < 0.08:
        w.by[""] = 10**6
        return "", 10**6, [], [], []
    text, code, html = [], [], []
    for _ in range(rng.randint(1, 4)):
        s, n = w.make(rng)
        ws = w.tokens[n - 1]
        r = rng.random()
        if r < 0.3:
            html.append(f"<pre><code>{s}\n</code></pre>")
            code += ws
        elif r < 0.4:
            html.append(f"<p>{s} <code>inline</code></p>")
            text += ws + ["inline"]
        elif r < 0.5:
            html.append(f"<blockquote><p>{s} <em>more</em> text</p></blockquote>")
            text += ws + ["more", "text"]
        elif r < 0.6:
            html.append(f"<ul><li>{s}</li><li><pre class='x'><code>y z</code></pre></li></ul>")
            text += ws
            code += ["y", "z"]
        elif r < 0.7:
            html.append(s)
            text += ws
        else:
            html.append(f"<p>{s}</p>\n\n")
            text += ws
    h = " ".join(html)
    if h in w.by:
        return body(rng, w)
    n = len(w.tokens) + 1
    w.tokens.append([])
    w.by[h] = n
    return h, n, text, code, markers(h)


class Dumps:
    def __init__(self, rng, w, ids=5, sites=3):
        self.rng, self.w = rng, w
        self.ids = ids
        self.users = [self.name() for _ in range(5)]
        self.tags = [w.make(rng, words=[])[0] for _ in range(5)]
        self.lics = [w.make(rng)[0] for _ in range(2)]
        self.sites = SITES[:sites]

    def name(self):
        return self.w.make(self.rng, prefix=self.rng.choice(["", "Dr ", "<b>"]))[0]

    def dump(self, n=None, more=0):
        """(dump for the specification, {file: [attributes]})"""
        rng, w = self.rng, self.w
        posts, comments, users, xp, xc, xu = [], [], [], [], [], []
        for _ in range(rng.choice([0, 1, 2, 4]) if n is None else n):
            i, ty = rng.randint(1, self.ids), rng.choice([1, 1, 2, 2, 2, rng.choice([3, 4, 5, 6, 7])])
            a = {"Id": str(i), "PostTypeId": str(ty), "Score": "3", "ViewCount": "7"}
            r = {"id": i, "type": ty, "parent": 0, "title": 0, "owner": 0, "lic": 0, "tags": []}
            if ty == 2 and rng.random() < 0.9:
                r["parent"] = rng.randint(1, self.ids)
                a["ParentId"] = str(r["parent"])
            if ty != 2:
                s, r["title"] = w.make(rng, prefix=rng.choice(["", "", "& "])) if False else w.make(rng)
                a["Title"] = s
                tags = rng.sample(self.tags, rng.randint(0, 3))
                if tags or rng.random() < 0.5:
                    a["Tags"] = "".join(f"<{t}>" for t in tags)
                r["tags"] = [w.num(t) for t in tags]
                if rng.random() < 0.3:
                    a["AcceptedAnswerId"] = str(rng.randint(1, self.ids))
            h, r["body"], r["text"], r["code"], r["shown"] = body(rng, w)
            if h is not None:
                a["Body"] = h
            if rng.random() < 0.8:
                r["owner"] = rng.randint(1, more or 4)
                a["OwnerUserId"] = str(r["owner"])
            if rng.random() < 0.8:
                s = rng.choice(self.lics)
                a["ContentLicense"], r["lic"] = s, w.num(s)
            d = dt.datetime(rng.choice([2009, 2020]), rng.choice([1, 2, 12]), rng.choice([1, 28, 31][:2]), rng.choice([0, 23]),
                            rng.choice([0, 59]), 7, rng.choice([0, 123000]))
            a["CreationDate"] = d.isoformat(timespec="milliseconds")
            r["date"] = date(d)
            posts.append(r)
            xp.append(a)
        for _ in range(more or rng.choice([0, 1, 3])):
            s, t = w.make(rng)
            r = {"id": rng.randint(1, more or 4), "post": rng.randint(1, self.ids), "text": t, "user": rng.randint(0, more or 4), "lic": 0}
            a = {"Id": str(r["id"]), "PostId": str(r["post"]), "Text": s, "Score": "0", "CreationDate": "2012-01-01T00:00:00.000"}
            if r["user"]:
                a["UserId"] = str(r["user"])
            if rng.random() < 0.8:
                s = rng.choice(self.lics)
                a["ContentLicense"], r["lic"] = s, w.num(s)
            comments.append(r)
            xc.append(a)
        for _ in range(more or rng.choice([0, 1, 3, 4])):
            r = {"id": rng.randint(1, more or 4), "name": 0}
            a = {"Id": str(r["id"]), "Reputation": "1"}
            if rng.random() < 0.93:
                s = rng.choice(self.users)
                a["DisplayName"], r["name"] = s, w.num(s)
            users.append(r)
            xu.append(a)
        site = rng.randrange(len(self.sites))
        return ({"site": site + 1, "posts": posts, "comments": comments, "users": users},
                {"posts": xp, "comments": xc, "users": xu})


def date(d):
    return [d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond]


def write(c, rows, damage=None):
    """the three files of a dump; damage: (file, fraction of it which arrives)"""
    out = []
    for kind in ("posts", "comments", "users"):
        root = ElementTree.Element(kind)
        for a in rows[kind]:
            root.append(ElementTree.Element("row", a))
        text = b'<?xml version="1.0" encoding="utf-8"?>\n' + ElementTree.tostring(root)
        if damage and damage[0] == kind:
            text = text[:min(int(len(text) * damage[1]), len(text) - 2)]
        p = c.path("dump") + ".xml"
        if not (damage and damage[0] == kind and damage[1] < 0):
            with open(p, "wb") as f:
                f.write(text)
        out.append(p)
    return out


class History:
    def __init__(self, c, path, w):
        self.c, self.path, self.w = c, path, w
        self.case = {"steps": [], "deleted": 1, "tokens": w.tokens, "_how": []}
        self.sites = {u: i + 1 for i, u in enumerate(SITES)}

    def doc(self, d):
        w = self.w
        n = {"Question": 1, "Answer": 2}
        return {"site": self.sites.get(d["site_url"], -1), "id": d["Id"], "title": w.num(d["Title"]), "body": w.num(d["Body"]),
                "type": n.get(d["PostType"], -1), "name": w.num(d["DisplayName"]), "date": date(dt.datetime.fromisoformat(d["CreationDate"])),
                "tags": sorted(w.num(t) for t in d["Tags"]),
                "comments": sorted(([w.num(x["DisplayName"]), w.num(x["Text"])] for x in d["UserComments"]))}

    def idx(self, corpus, d):
        w = self.w
        # the comments in a known order, which is then that of the words
        d = {**d, "UserComments": sorted(d["UserComments"], key=lambda x: (w.num(x["DisplayName"]), w.num(x["Text"])))}
        f = corpus.index(d)
        n = {"Question": 1, "Answer": 2}
        known = {"UserPosting", "Post", "CodeBlock", "Tag", "UserCommenting", "Comment", "Site", "PostType",
                 "created_day", "created_month", "created_year"}
        day = lambda k: next((date(dt.datetime.fromisoformat(x)) for x in f[k]), []) if len(f[k]) == 1 else []
        return {"by": [w.num(x) for x in f["UserPosting"]], "post": list(f["Post"]), "code": list(f["CodeBlock"]),
                "tags": sorted(w.num(x) for x in f["Tag"]), "commenting": sorted(w.num(x) for x in f["UserCommenting"]),
                "comment": list(f["Comment"]), "site": [self.sites.get(x, -1) for x in f["Site"]],
                "type": [n.get(x, -1) for x in f["PostType"]], "day": day("created_day"), "month": day("created_month"),
                "year": day("created_year"), "extra": int(set(f) != known)}

    def tab(self, r):
        w = self.w
        n = {"Question": 1, "Answer": 2}
        cs = json.loads(r["comments"])
        return {"site": self.sites.get(r["site_url"], -1), "id": r["Id"], "owner": r["OwnerUserId"] or 0, "name": w.num(r["DisplayName"]),
                "lic": w.num(r["ContentLicense"]), "type": n.get(r["PostType"], -1), "body": w.num(r["Body"]),
                "parent": r["ParentId"] or 0, "title": w.num(r["QuestionTitle"]),
                "link": int(r["LiveLink"] == f"{r['site_url']}/questions/{r['Id']}"),
                "tags": sorted(w.num(t) for t in r["tags"].split(", ")) if r["tags"] else [],
                "comments": sorted([w.num(x["DisplayName"]), w.num(x["Text"]), w.num(x["ContentLicense"])] for x in cs)}

    def everything(self):
        c = StackExchangeCorpus(self.path)
        try:
            try:
                keys = list(c.keys())
            except sim.sqlite3.OperationalError as e:
                if "no such table" in str(e) and not any(s["k"] == "add" and s["stored"] for s in self.case["steps"]):
                    return []
                raise
            docs = dict(c.docs(keys))
            tab, html = dict(c.render_docs_table(keys)), dict(c.render_docs_html(keys))
            return [{"key": k, "doc": self.doc(docs[k]), "idx": self.idx(c, docs[k]), "tab": self.tab(tab[k]),
                     "html": markers(str(html[k]))} for k in sorted(keys)]
        finally:
            c.close()

    def last(self):
        return next((s["docs"] for s in reversed(self.case["steps"]) if s["k"] == "add"), [])

    def added(self, dump, exc, may, must, corpus):
        before = self.last()
        step = {"k": "add", "dump": dump, "exc": exc, "may": may, "must": must, "stored": int(exc == ""),
                "intx": int(corpus is not None and corpus.db.in_transaction)}
        self.case["steps"].append(step)
        step["docs"] = self.everything()
        if exc and may == 2 and step["docs"] != before:
            step["stored"] = 1

    def look(self, rng, corpus):
        keys = [d["key"] for d in self.last()]
        if not keys:
            return
        for how in rng.sample(["docs", "html", "table", "pickled", "item", "all", "iter"], 2):
            some = rng.choice([[], rng.sample(keys, len(keys)), [rng.choice(keys) for _ in range(3)]])
            if how == "html":
                got = [[k, markers(str(h))] for k, h in corpus.render_docs_html(some)]
            elif how == "table":
                got = [[k, self.tab(r)] for k, r in corpus.render_docs_table(some)]
            elif how == "pickled":
                other = pickle.loads(pickle.dumps(corpus))
                got = [[k, self.doc(d)] for k, d in other.docs(some)]
                other.close()
            elif how == "item":
                got = [[k, self.doc(d)] for x in some for k, d in corpus[x]]
            elif how in ("all", "iter"):
                got = [[k, self.doc(d)] for k, d in (corpus.docs() if how == "all" else corpus)]
                some = [k for k, _ in got]
                if sorted(some) != sorted(keys):
                    some = keys
            else:
                got = [[k, self.doc(d)] for k, d in corpus.docs(iter(some))]
            self.case["steps"].append({"k": "get", "how": how, "keys": list(some), "got": got, "intx": int(corpus.db.in_transaction)})


def attempt(fn):
    try:
        with core.deadline(30):
            fn()
    except core.Hang:
        raise
    except KeyboardInterrupt:
        return "KeyboardInterrupt"
    except Exception as e:
        return type(e).__name__
    return ""


def add(c, corpus, dump, rows, damage=None, opened=False):
    files = write(c, rows, damage)
    hs = [open(f, "rb") for f in files] if opened else files
    try:
        return attempt(lambda: corpus.add_site_data(*hs, SITES[dump["site"] - 1]))
    finally:
        for f in hs if opened else ():
            f.close()
        for f in files:
            if os.path.exists(f):
                os.remove(f)


def random_history(c, seed):
    rng = random.Random(seed)
    w = World()
    h = History(c, c.path("sx"), w)
    d = Dumps(rng, w, ids=rng.choice([2, 4, 6]), sites=rng.choice([1, 2, 3]))
    corpus = StackExchangeCorpus(h.path)
    old = []
    for _ in range(rng.randint(1, 5)):
        dump, rows = rng.choice(old) if old and rng.random() < 0.25 else d.dump()
        old.append((dump, rows))
        r = rng.random()
        if r < 0.2:
            damage = (rng.choice(["posts", "comments", "users"]), rng.choice([0.0, 0.3, 0.6, 0.95, -1.0]))
            exc = add(c, corpus, dump, rows, damage)
            h.added(dump, exc, 1, 1, corpus)
        elif r < 0.35 and h.last():
            # another session has begun to read and finishes afterwards
            other = StackExchangeCorpus(h.path)
            g = other.docs()
            got = [next(g)]
            at = len(h.case["steps"])
            exc = add(c, corpus, dump, rows)
            h.added(dump, exc, 0, 0, corpus)
            got += list(g)
            h.case["steps"].append({"k": "reader", "at": at, "got": [[k, h.doc(x)] for k, x in got]})
            other.close()
        else:
            exc = add(c, corpus, dump, rows, opened=rng.random() < 0.2)
            h.added(dump, exc, 0, 0, corpus)
        h.look(rng, corpus)
        if rng.random() < 0.2:
            corpus.close()
            corpus = pickle.loads(pickle.dumps(corpus))
    corpus.close()
    c.rm(h.path)
    return h.case


def faulty(c, arg):
    kind, where, k, first, seed = arg
    rng = random.Random(seed)
    w = World()
    h = History(c, c.path("sxf"), w)
    h.case["_how"] = list(arg)
    d = Dumps(rng, w, ids=3, sites=2)
    corpus = StackExchangeCorpus(h.path)
    if not first:
        dump, rows = d.dump(3)
        h.added(dump, add(c, corpus, dump, rows), 0, 0, corpus)
    dump, rows = d.dump(3)
    boom = {"error": raiser(Injected("disk I/O error")), "interrupt": raiser(KeyboardInterrupt()),
            "crash": lambda: os._exit(7)}[kind]
    gate = FaultGate(h.path, at=k, where=where, what=boom)

    def go():
        with sim.gated(gate):
            return add(c, corpus, dump, rows)
    if kind == "crash":
        corpus.close()

        def child():
            nonlocal corpus
            corpus = StackExchangeCorpus(h.path)
            return go()
        res = in_child(child)
        if res is None:
            h.added(dump, "crash", 2, 1, None)
        else:
            h.added(dump, res[1] if res[0] == "ok" else "", 0, 0, None)
        corpus = StackExchangeCorpus(h.path)
    else:
        exc = go()
        late = gate.fired and where == "after" and gate.sql[-1:] and k >= len(gate.sql) - 1
        h.added(dump, exc, (2 if late else 1) if gate.fired else 0, int(gate.fired), corpus)
    h.case["_how"].append(gate.n)
    h.look(rng, corpus)
    dump, rows = d.dump()
    h.added(dump, add(c, corpus, dump, rows), 0, 0, corpus)
    h.look(rng, corpus)
    corpus.close()
    c.rm(h.path)
    return h.case


def large(c, arg):
    """more rows than any batch; the second time they stop coming late"""
    seed, posts, others = arg
    rng = random.Random(seed)
    w = World()
    h = History(c, c.path("sxl"), w)
    d = Dumps(rng, w, ids=posts, sites=2)
    corpus = StackExchangeCorpus(h.path)
    for i in range(2):
        dump, rows = d.dump(posts, others)
        for damage in ((), [(rng.choice(["posts", "comments", "users"]), rng.choice([0.9, 0.97, 0.99])), ()])[i] or ((),):
            h.added(dump, add(c, corpus, dump, rows, damage), 0 if not damage else 1, int(bool(damage)), corpus)
        h.look(rng, corpus)
    corpus.close()
    c.rm(h.path)
    return h.case


def statements(c, seed, first):
    rng = random.Random(seed)
    d = Dumps(rng, World(), ids=3, sites=2)
    p = c.path("sxn")
    corpus = StackExchangeCorpus(p)
    if not first:
        dump, rows = d.dump(3)
        add(c, corpus, dump, rows)
    dump, rows = d.dump(3)
    g = FaultGate(p)
    with sim.gated(g):
        add(c, corpus, dump, rows)
    corpus.close()
    c.rm(p)
    return len(g.sql)
