"""Histories of requests to the web server (WebTrace.tla)."""
import csv
import gc
import hashlib
import http.client
import io
import os
import random
import re
import signal
import threading
import time
from urllib.parse import parse_qsl, quote, urlencode, urlsplit

from . import core, model, sim
from .corpora import *
from .sim import index as hi, BitMap

_SERVER = None
_seed = random.Random.seed


class FixedSeed:
    """Sessions which aren't given a seed use this one."""
    value = None


def _fixed(self, a=None, version=2):
    if a is None and FixedSeed.value is not None:
        a = FixedSeed.value
    return _seed(self, a, version)


class Proxy:
    """The index server of the process, one after the other"""
    current = None

    def index(self, index_id):
        return self.current.index(index_id)

    def list_indices(self):
        return self.current.list_indices()


def server():
    global _SERVER
    if _SERVER is None or _SERVER[0] != os.getpid():
        import cherrypy
        from hyperreal import server as hs
        cherrypy.config.update({"log.screen": False, "engine.autoreload.on": False, "server.thread_pool": 3})
        cherrypy.engine.timeout_monitor = None
        proxy = Proxy()
        hs.launch_web_server(proxy, port=0)
        signal.signal(signal.SIGTERM, signal.SIG_DFL)
        for s in (signal.SIGHUP, signal.SIGUSR1):
            signal.signal(s, signal.SIG_IGN)
        signal.signal(signal.SIGINT, signal.default_int_handler)
        cherrypy.log.error_log.disabled = True
        cherrypy.log.access_log.disabled = True
        random.Random.seed = _fixed
        # what isn't released by a request stays
        gc.disable()
        _SERVER = (os.getpid(), proxy, cherrypy.server.bound_addr, hs)
    return _SERVER


def request(method, url, form=None):
    host, port = server()[2]
    con = http.client.HTTPConnection(host, port, timeout=60)
    try:
        body = urlencode(form, doseq=True) if form is not None else None
        headers = {"Connection": "close"}
        if body is not None:
            headers["Content-Type"] = "application/x-www-form-urlencoded"
        con.request(method, url, body=body, headers=headers)
        r = con.getresponse()
        data = r.read()
        loc = r.getheader("Location") or ""
        return r.status, urlsplit(loc)._replace(scheme="", netloc="").geturl(), data, r
    finally:
        con.close()


def handles(path):
    """open files of the index"""
    n = 0
    for fd in os.listdir("/proc/self/fd"):
        try:
            if os.readlink(f"/proc/self/fd/{fd}").startswith(path):
                n += 1
        except OSError:
            pass
    return n


_leaks = 0


def released(path, wait=4.0):
    global _leaks
    t = time.time()
    while handles(path):
        if time.time() - t > (wait if _leaks < 3 else 0.2):
            _leaks += 1
            return 0
        time.sleep(0.002)
    return 1


# ---------------------------------------------------------------------------------------------------
# what a page shows
# ---------------------------------------------------------------------------------------------------
def number(text):
    """1.23e+02 -> [123, 2]"""
    m = re.fullmatch(r"(\d)\.(\d\d)e([+-]\d+)", text.strip())
    return [int(m[1] + m[2]), int(m[3])] if m else [-1, 0]


def classes(node, name):
    return node.xpath(f'.//*[contains(concat(" ", normalize-space(@class), " "), " {name} ")]')


class Page:
    def __init__(self, data):
        from lxml import html
        self.doc = html.document_fromstring(data.decode("utf-8"))

    def links(self):
        return [a.attrib.get("href", "") for a in self.doc.iter("a")]

    def clusters(self, names):
        """[[cluster, score, [[feature, field, value, score]]]]"""
        out = []
        for block in classes(self.doc, "feature-cluster"):
            head = " ".join(classes(block, "cluster-header")[0].text_content().split())
            m = re.fullmatch(r"Cluster (-?\d+)(?: - (\S+))?", head)
            rows = []
            for a in block.iter("a"):
                if not classes(a, "feature"):
                    continue
                q = dict(parse_qsl(urlsplit(a.attrib["href"]).query))
                fid = int(q.get("feature_id", -1))
                field = classes(a, "field")[0].text_content()
                value = classes(a, "value")[0].text_content()
                rows.append([fid, fnum(field), names.get((fid, value), -1), number(classes(a, "score")[0].text_content())])
            out.append([int(m[1]) if m else -1, number(m[2]) if m and m[2] else [-1, 0], rows])
        return out

    def documents(self):
        """the number stated (-1: none), and the texts of the documents listed"""
        total = -1
        for h in classes(self.doc, "cluster-header"):
            m = re.search(r"(?:Sample of (\d+) documents|All (\d+) matching documents)", " ".join(h.text_content().split()))
            if m:
                total = int(m[1] or m[2])
        sample = any("Sample of" in h.text_content() for h in classes(self.doc, "cluster-header"))
        lists = classes(self.doc, "doc-list")
        return total, int(sample), [li.text_content() for ul in lists for li in ul if li.tag == "li"]

    def concordances(self):
        return [li.text_content() for li in classes(self.doc, "concordance-line")]


# ---------------------------------------------------------------------------------------------------
# a site
# ---------------------------------------------------------------------------------------------------
class Site:
    def __init__(self, c, seed, large=None):
        self.c = c
        self.rng = rng = random.Random(seed)
        self.path = c.path("web")
        self.pool = sim.SimPool(workers=rng.randint(1, 3))
        self.kind = rng.choice(["none", "full", "full", "plain", "plain"]) if not large else "full"
        self.corpus_path = None
        kw = {}
        if self.kind == "plain":
            self.corpus_path = c.path("webtexts")
            corpus = sim.corpus.PlainTextSqliteCorpus(self.corpus_path)
            texts = [" ".join(rng.choice(["a", "b", "cat", "dog", "d'or", "e", "x"]) for _ in range(rng.randint(0, 6))) + f" u{i}"
                     for i in range(rng.choice([1, 3, 8]))]
            corpus.replace_docs(texts)
            kw = {"corpus_class": sim.corpus.PlainTextSqliteCorpus, "corpus_args": [self.corpus_path]}
            self.html = {t: i for i, t in enumerate(texts)}
        else:
            if large:
                nf, nfields = large[0], 2
                sets = [{rng.randrange(large[1]) for _ in range(rng.choice([1, 1, 2, 9]))} for _ in range(nf)]
            else:
                nf = rng.randint(2, 9)
                nfields = rng.randint(1, 3)
                sets = model.random_docsets(rng, nf, rng.randint(2, 9))
            fields = [FIELDS[rng.randrange(nfields)] for _ in range(nf)]
            corpus = model.feature_corpus(sets, fields)
            corpus = FullCorpus([(k, {f: (sorted(v, key=str) if f == "text" else v) for f, v in d.items()})
                                 for k, d in corpus._docs])
            if self.kind == "full":
                kw = {"corpus_class": FullCorpus, "corpus_args": [corpus._docs]}
            self.html = {f"html of {k!r}": k for k, _ in corpus._docs}
        self.corpus = corpus
        idx = model.build(self.path, corpus, self.pool, pos=True, seed=rng.randrange(1000))
        if large:
            idx.initialise_clusters(large[2])
        elif rng.random() < 0.85:
            idx.initialise_clusters(rng.choice([1, 2, 3, 5]))
            st = model.state(self.path)
            fids = [r[0] for r in st["fc"]]
            for _ in range(rng.randint(0, 4)):
                try:
                    model.apply(idx, model.random_op(rng, model.state(self.path), fids, 2, refine=False,
                                                     weights={"create": 5, "pinc": 5, "pinf": 5, "merge": 2}))
                except Exception:
                    pass
        idx.close()
        if self.corpus_path:
            corpus.close()
        db = model.raw(self.path)
        # values as they are shown
        self.texts, self.fields = {}, set()
        for fid, f, v in db.execute("select feature_id, field, value from inverted_index"):
            self.texts[fid] = (f, v)
        if self.kind == "plain":
            # any words: number them
            vals = sorted({v for _, v in self.texts.values()})
            self.vn = {v: i + 1 for i, v in enumerate(vals)}
            self.fn = {f: i + 1 for i, f in enumerate(sorted({f for f, _ in self.texts.values()}))}
        self.docs = {k: d for d, k in db.execute("select doc_id, doc_key from doc_key")}
        keyed = {i: d for i, (k, d) in enumerate(sorted(self.docs.items()))} if self.kind == "plain" else self.docs
        self.html = {t: keyed[k] for t, k in self.html.items()}
        self.content = [[fid, self.fnum(f), self.vnum(v), list(BitMap.deserialize(d)), p or 0] for fid, f, v, d, p in db.execute(
            "select feature_id, field, value, cast(doc_ids as blob), (select sum(position_count) from position_index p "
            "where p.feature_id = inverted_index.feature_id) from inverted_index order by 1")]
        self.names = {(fid, str(v)): self.vnum(v) for fid, (f, v) in self.texts.items()}
        db.close()
        self.case = {"content": self.content, "start": model.state(self.path), "steps": [], "_how": [self.kind]}
        hs = server()[3]
        self.live = hs.SingleIndexServer(self.path, pool=self.pool, **kw)
        _SERVER[1].current = self.live
        self.twin_kw = kw

    def fnum(self, f):
        return self.fn.get(f, -1) if self.kind == "plain" else fnum(f)

    def vnum(self, v):
        return self.vn.get(v, -1) if self.kind == "plain" else vnum(v)

    def close(self):
        _SERVER[1].current = None
        self.c.rm(self.path)
        if self.corpus_path:
            self.c.rm(self.corpus_path)

    # -- requests ------------------------------------------------------------------------------------
    def dump(self):
        db = model.raw(self.path)
        try:
            return hashlib.sha1("\n".join(db.iterdump()).encode("utf-8", "replace")).hexdigest()[:12]
        finally:
            db.close()

    def step(self, kind, method, url, form=None, **more):
        before = self.dump()
        twin = None
        if kind == "edit" and method == "POST" and "op" in more:
            twin = self.c.path("twin")
            model.copy_db(self.path, twin)
        FixedSeed.value = 7
        status, loc, data, resp = request(method, url, form)
        FixedSeed.value = None
        s = {"k": kind, "method": method, "status": status, "loc": target(loc), "same": int(self.dump() == before),
             "released": released(self.path), "post": model.state(self.path), "op": {"name": "none"}, "page": NO_PAGE,
             "twin": 1, "final": 0, "want": {}, "_url": f"{method} {url} {form or ''}"[:300], "_loc": loc}
        s.update(more)
        self.data, self.resp = data, resp
        if status in (301, 302, 303, 307, 308):
            hops, at = 0, loc
            while hops < 5:
                st, nxt, d, _ = request("GET", at)
                s["final"] = st
                if st not in (301, 302, 303, 307, 308):
                    break
                s["last"] = target(nxt)
                at, hops = nxt, hops + 1
            s["released"] = min(s["released"], released(self.path))
        s.setdefault("last", s["loc"])
        if twin:
            try:
                s["twin"] = int(self.twin(twin, s["op"]) == (s["post"] if status < 400 else "failed") or status >= 400)
                if status >= 400:
                    s["twin"] = int(self.twin_failed)
            finally:
                self.c.rm(twin)
        self.case["steps"].append(s)
        return s

    def twin(self, path, op):
        """the same operation through the library"""
        self.twin_failed = False
        FixedSeed.value = 7
        idx = hi.Index(path, pool=self.pool)
        try:
            if op["name"] == "recreate":
                model.apply(idx, {"name": "init", "n": op["n"], "min": op["min"], "fields": []} if not op["fields"] else
                            {"name": "init", "n": op["n"], "min": op["min"], "fields": op["fields"]}) \
                    if self.kind != "plain" else idx.initialise_clusters(op["n"], min_docs=op["min"], include_fields=op["_f"] or None)
                idx.refine_clusters(iterations=op["iters"], minimum_cluster_features=op["least"])
            elif op["name"] == "refine":
                idx.refine_clusters(iterations=op["iters"], cluster_ids=op["sel"], minimum_cluster_features=op["min"],
                                    target_clusters=op["target"] or None)
            else:
                model.apply(idx, op)
        except Exception:
            self.twin_failed = True
            return "failed"
        finally:
            idx.close()
            FixedSeed.value = None
        return model.state(path)

    def cluster_ids(self):
        return sorted({r[1] for r in model.state(self.path)["fc"]})

    def some_cluster(self, unknown=0.12):
        ids = self.cluster_ids()
        if not ids or self.rng.random() < unknown:
            return self.rng.choice([max(ids, default=0) + 1, 0, 999, 10**9])
        return self.rng.choice(ids)

    def some_feature(self, unknown=0.08):
        if self.rng.random() < unknown:
            return 10**6
        return self.rng.choice([r[0] for r in self.content])

    # -- views ---------------------------------------------------------------------------------------
    def shown(self, s, where):
        p = Page(self.data)
        total, sample, texts = p.documents()
        s["page"] = {"clusters": p.clusters(self.names) if self.kind != "plain" else self.plain_clusters(p), "total": total, "sample": sample,
                     "docs": [self.html.get(t, -1) for t in texts]}
        return p

    def plain_clusters(self, p):
        rows = p.clusters(self.names)
        for b, block in zip(rows, classes(p.doc, "feature-cluster")):
            fs = [classes(a, "field")[0].text_content() for a in block.iter("a") if classes(a, "feature")]
            for r, f in zip(b[2], fs):
                r[1] = self.fnum(f)
        return rows

    def overview(self):
        rng = self.rng
        q, want = [], {"feature": 0, "cluster": -1, "k": 40, "n": 5, "docs": int(self.kind != "none")}
        if rng.random() < 0.6:
            if rng.random() < 0.6:
                want["feature"] = self.some_feature()
                q.append(("feature_id", want["feature"]))
            else:
                want["cluster"] = self.some_cluster()
                q.append(("cluster_id", want["cluster"]))
        if rng.random() < 0.4:
            want["k"] = rng.choice([1, 2, 3, 100])
            q.append(("top_k_features", want["k"]))
        if rng.random() < 0.4:
            want["n"] = rng.choice([0, 1, 2, 3, 100])
            q.append(("exemplar_docs", want["n"]))
        s = self.step("overview", "GET", "/index/0/" + ("?" + urlencode(q) if q else ""), want=want)
        if s["status"] == 200:
            self.shown(s, "index")

    def cluster(self):
        rng = self.rng
        cid = self.some_cluster(0.2)
        q, want = [], {"cluster": cid, "feature": 0, "filter": -1, "n": 30, "docs": int(self.kind != "none")}
        if rng.random() < 0.5:
            want["feature"] = self.some_feature()
            q.append(("feature_id", want["feature"]))
        if rng.random() < 0.3:
            want["filter"] = self.some_cluster()
            q.append(("filter_cluster_id", want["filter"]))
        if rng.random() < 0.4:
            want["n"] = rng.choice([0, 1, 2, 3, 100])
            q.append(("exemplar_docs", want["n"]))
        s = self.step("cluster", "GET", f"/index/0/cluster/{cid}/" + ("?" + urlencode(q) if q else ""), want=want)
        if s["status"] == 200:
            p = self.shown(s, "cluster")
            nav = [int(m[1]) for m in (re.fullmatch(r"/index/0/cluster/(\d+)", x) for x in p.links()) if m]
            s["page"]["nav"] = nav
            s["page"]["unpin"] = int(b"Unpin Cluster" in self.data)
            s["page"]["visible"] = [int(i.attrib["value"]) for i in p.doc.iter("input")
                                    if i.attrib.get("name") == "feature_id" and i.attrib.get("type") == "hidden"]

    def extracts(self):
        """concordances and passages: the same ones as from the library"""
        rng = self.rng
        if self.kind != "plain":
            return self.overview()
        kind = rng.choice(["concordance", "passage"])
        idx = hi.Index(self.path, corpus=sim.corpus.PlainTextSqliteCorpus(self.corpus_path), pool=self.pool)
        try:
            ids = self.cluster_ids()
            if not ids:
                return
            fid, cid = self.some_feature(0), rng.choice(ids)
            where = rng.choice(["feature", "pivot", "cluster", "cluster+feature", "cluster+cluster"])
            cf = idx.cluster_features(cid)
            if where == "feature":
                url, query, feats, dnf = f"/index/0/?feature_id={fid}&", idx[fid], [fid], [[fid]]
            elif where == "pivot":
                url, query = f"/index/0/?cluster_id={cid}&", idx.cluster_docs(cid)
                feats, dnf = [r[1:3] for r in cf], [[r[0] for r in cf]]
            else:
                url, query = f"/index/0/cluster/{cid}/?", idx.cluster_docs(cid)
                feats, dnf = [r[1:3] for r in cf], [[r[0] for r in cf]]
                if where == "cluster+feature":
                    url += f"feature_id={fid}&"
                    query = query & idx[fid]
                    feats.append(fid)
                    dnf.append([fid])
                elif where == "cluster+cluster":
                    other = rng.choice(ids)
                    url += f"filter_cluster_id={other}&"
                    query = query & idx.cluster_docs(other)
                    of = idx.cluster_features(other)
                    feats.extend(r[1:3] for r in of)
                    dnf.append([r[0] for r in of])
            if kind == "concordance":
                want = [line for _, _, m in idx.concordances(query, feats, 15) for f in m.values() for v in f.values() for line in v]
            else:
                want = [" ".join(map(str, v)) if not isinstance(v, str) else v
                        for _, _, p in idx.render_passages_table(idx.score_passages_dnf(dnf, 25)) for vs in p.values() for v in vs]
                if not query and where in ("feature", "pivot"):
                    want = []
        finally:
            idx.close()
        s = self.step("extracts", "GET", url + f"result_type={kind}&exemplar_docs=100")
        got = []
        if s["status"] == 200:
            p = Page(self.data)
            got = p.concordances() if kind == "concordance" else [
                dd.text_content() for ul in classes(p.doc, "doc-list") for dd in ul.iter("dd")]
        s["page"] = {**NO_PAGE, "got": sorted(got), "expected": sorted(want)}

    def details(self):
        s = self.step("details", "GET", "/index/0/details")
        rows = []
        if s["status"] == 200:
            for tr in Page(self.data).doc.iter("tr"):
                td = [x.text_content() for x in tr if x.tag == "td"]
                if len(td) >= 5:
                    lo = [self.vnum(v) for f, v in self.texts.values() if f == td[0] and str(v) == td[2]]
                    hi_ = [self.vnum(v) for f, v in self.texts.values() if f == td[0] and str(v) == td[3]]
                    rows.append([self.fnum(td[0]), int(td[1]), lo or [-1], hi_ or [-1], int(td[4]) if td[4].isdigit() else -1])
        s["page"] = {**NO_PAGE, "fields": rows}

    def export(self):
        s = self.step("export", "GET", "/index/0/export_clusters")
        rows, head = [], 0
        if s["status"] == 200:
            got = list(csv.reader(io.StringIO(self.data.decode("utf-8"), newline="")))
            head = int(got[:1] == [["cluster_id", "feature_id", "field", "value", "docs_count"]])
            for r in got[1:]:
                ok = len(r) == 5 and all(re.fullmatch(r"-?\d+", r[i]) for i in (0, 1, 4))
                rows.append([int(r[0]), int(r[1]), self.fnum(r[2]), self.names.get((int(r[1]), r[3]), -1), int(r[4])] if ok else [-1] * 5)
        s["page"] = {**NO_PAGE, "rows": rows, "head": head}

    def search(self):
        rng = self.rng
        if rng.random() < 0.8:
            field, value = self.texts[self.some_feature(0)]
        else:
            field, value = rng.choice(["text", "nothing"]), "unknown"
        there = [fid for fid, x in self.texts.items() if x == (field, value) and isinstance(value, str)]
        form = {"field": field, "value": str(value)}
        there = [fid for fid, x in self.texts.items() if x[0] == field and x[1] == str(value) and isinstance(x[1], str)]
        where, cid = rng.choice(["index", "hidden", "cluster"]), self.some_cluster(0)
        url = "/index/0/search?" if where != "cluster" else f"/index/0/cluster/{cid}/search?"
        if where == "hidden":
            form["cluster_id"] = cid
        self.step("search", "GET", url + urlencode(form),
                  want={"feature": there[0] if there else 0, "cluster": -1 if where == "index" else cid})

    def nowhere(self):
        rng = self.rng
        n = rng.choice([1, 2, -1, 10**10])
        url = rng.choice(["", "/", "/details", "/export_clusters", "/cluster/1", "/cluster/1/", "/search?field=text&value=a",
                          "/?feature_id=1", "/?cluster_id=1"])
        method, form = "GET", None
        if rng.random() < 0.4:
            method, (url, form) = "POST", rng.choice([
                ("/cluster/delete", {"cluster_id": [1]}), ("/cluster/create", {"feature_id": [1]}), ("/cluster/merge", {"cluster_id": [1, 2]}),
                ("/cluster/pin", {"cluster_id": [1]}), ("/feature/pin", {"feature_id": [1]}), ("/feature/remove_from_model", {"feature_id": [1]}),
                ("/cluster/refine", {"cluster_id": [1]}), ("/recreate_model", {}), ("/refine_model", {})])
        self.step("nowhere", method, f"/index/{n}{url}", form)

    def listing(self):
        s = self.step("listing", "GET", self.rng.choice(["/", "/index/", "/index"]))
        st, _, data, _ = request("GET", "/index/")
        s["page"] = {**NO_PAGE, "linked": int(st == 200 and any(x.rstrip("/") == "/index/0" for x in Page(data).links()))}

    # -- edits ---------------------------------------------------------------------------------------
    def edit(self, method="POST"):
        rng = self.rng
        ids = self.cluster_ids()
        n = rng.choices(["delete", "create", "merge", "refine", "pin", "remove", "pinf", "recreate", "refine_model"],
                        [3, 4, 3, 3, 4, 3, 4, 2, 2])[0]

        def some(fn, counts, unknown=0.03):
            return [fn(unknown) for _ in range(rng.choice(counts))]
        back, op, want = {}, None, {"to": "index", "cluster": -1}
        if n == "delete":
            cs = some(self.some_cluster, [0, 1, 1, 2])
            url, form, op = "cluster/delete", {"cluster_id": cs}, {"name": "delclusters", "cs": cs}
            if rng.random() < 0.5:
                want = {"to": "cluster", "cluster": self.some_cluster(0.05)}
                form["return_cluster_id"] = want["cluster"]
            elif rng.random() < 0.5:
                form["return_to"] = "model"
        elif n == "create":
            fs = some(self.some_feature, [0, 1, 2, 3])
            url, form, op = "cluster/create", {"feature_id": fs}, {"name": "create", "fs": fs}
            if rng.random() < 0.5:
                form["cluster_id"] = self.some_cluster()
            want = {"to": "cluster", "cluster": -1}
        elif n == "merge":
            cs = some(self.some_cluster, [0, 1, 2, 2, 3])
            url, form, op = "cluster/merge", {"cluster_id": cs}, {"name": "merge", "cs": cs}
            want = {"to": "cluster", "cluster": -1}
        elif n == "pin":
            cs, on = some(self.some_cluster, [0, 1, 1, 2, 3]), rng.random() < 0.6
            url, form, op = "cluster/pin", {"cluster_id": cs}, {"name": "pinc", "cs": cs, "on": int(on)}
            if not on or rng.random() < 0.5:
                form["pinned"] = int(on)
            if rng.random() < 0.5:
                form["return_to"] = rng.choice(["cluster", "model"])
            if cs:
                want = {"to": "cluster" if form.get("return_to", "cluster") == "cluster" else "pivot", "cluster": cs[0]}
        elif n == "remove":
            fs = some(self.some_feature, [0, 1, 2])
            url, form, op = "feature/remove_from_model", {"feature_id": fs}, {"name": "delfeatures", "fs": fs}
            if rng.random() < 0.6:
                want = {"to": "cluster", "cluster": self.some_cluster()}
                form["cluster_id"] = want["cluster"]
        elif n == "pinf":
            fs, on = some(self.some_feature, [0, 1, 2]), rng.random() < 0.6
            url, form, op = "feature/pin", {"feature_id": fs}, {"name": "pinf", "fs": fs, "on": int(on)}
            if not on or rng.random() < 0.5:
                form["pinned"] = int(on)
            if rng.random() < 0.6:
                want = {"to": "cluster", "cluster": self.some_cluster()}
                form["cluster_id"] = want["cluster"]
        elif n in ("refine", "refine_model"):
            cs = some(self.some_cluster, [0, 1, 1, 2, 3]) if n == "refine" else []
            op = {**model.REFINE, "iters": 10, "sel": cs, "min": 1, "target": 0}
            form = {"cluster_id": cs} if n == "refine" else {}
            url = "cluster/refine" if n == "refine" else "refine_model"
            if rng.random() < 0.7:
                op["iters"] = rng.choice([0, 1, 2, 3, 3])
                form["iterations"] = op["iters"]
            if rng.random() < 0.7:
                t = rng.choice([0, 1, 2, 3, 5, ""])
                form["target_clusters"] = t
                op["target"] = t or 0
            if rng.random() < 0.4:
                op["min"] = rng.choice([1, 2, 3])
                form["minimum_cluster_features"] = op["min"]
            if n == "refine":
                if rng.random() < 0.5:
                    form["return_to"] = rng.choice(["cluster", "model"])
                if cs:
                    want = {"to": "cluster" if form.get("return_to", "cluster") == "cluster" else "pivot", "cluster": cs[0]}
        else:
            op = {"name": "recreate", "n": 64, "min": 10, "fields": [], "iters": 10, "least": 1, "_f": []}
            form = {}
            if rng.random() < 0.9:
                op["min"] = rng.choice([1, 1, 2])
                form["min_docs"] = op["min"]
            if rng.random() < 0.8:
                op["n"] = rng.choice([1, 2, 3, 4])
                form["clusters"] = op["n"]
            if rng.random() < 0.6:
                op["iters"] = rng.choice([1, 2])
                form["iterations"] = op["iters"]
            if rng.random() < 0.5:
                op["least"] = rng.choice([1, 2])
                form["minimum_cluster_features"] = op["least"]
            if rng.random() < 0.5:
                names = sorted({f for f, _ in self.texts.values()})
                op["_f"] = rng.sample(names, rng.randint(1, len(names)))
                op["fields"] = [self.fnum(f) for f in op["_f"]]
                form["include_fields"] = op["_f"]
            url = "recreate_model"
        url = "/index/0/" + url
        if method != "POST":
            self.step("wrong", method, url + "?" + urlencode(form, doseq=True))
            return
        if rng.random() < 0.04 and form and n != "recreate":
            # something that isn't a number
            k = rng.choice([k for k in form if k not in ("return_to", "include_fields", "return_cluster_id")
                            and not (k == "cluster_id" and n in ("create", "remove", "pinf"))] or [None])
            if k:
                self.step("wrong", method, url, {**form, k: "x1"})
                return
        s = self.step("edit", method, url, form, op=op, want=want)
        op.pop("_f", None)
        return s

    def run(self, n):
        rng = self.rng
        for _ in range(n):
            what = rng.choices(["edit", "overview", "cluster", "details", "export", "search", "nowhere", "listing", "get", "extracts"],
                               [10, 6, 6, 1, 2, 2, 1, 0.5, 1.5, 3])[0]
            with core.deadline(120):
                if what == "get":
                    self.edit(rng.choice(["GET", "GET", "PUT", "DELETE"]))
                else:
                    getattr(self, what)()
            if self.case["steps"] and not self.case["steps"][-1]["released"]:
                break
        return self.case


    def run_large(self):
        """few requests with a lot in them"""
        rng = self.rng

        def posted(url, op, want, **form):
            self.step("edit", "POST", "/index/0/" + url, form, op=op, want=want)
        index = {"to": "index", "cluster": -1}
        with core.deadline(240):
            for _ in range(2):
                self.overview()
                self.cluster()
            self.details()
            self.export()
            self.search()
            fids = [r[0] for r in self.content]
            fs = rng.sample(fids, len(fids) * 3 // 4)
            posted("cluster/create", {"name": "create", "fs": fs}, {"to": "cluster", "cluster": -1}, feature_id=fs)
            new = self.case["steps"][-1]["loc"][1]
            self.step("cluster", "GET", f"/index/0/cluster/{new}/?exemplar_docs=1000",
                      want={"cluster": new, "feature": 0, "filter": -1, "n": 1000, "docs": 1})
            if self.case["steps"][-1]["status"] == 200:
                p = self.shown(self.case["steps"][-1], "cluster")
                self.case["steps"][-1]["page"].update(
                    nav=[int(m[1]) for m in (re.fullmatch(r"/index/0/cluster/(\d+)", x) for x in p.links()) if m],
                    unpin=int(b"Unpin Cluster" in self.data),
                    visible=[int(i.attrib["value"]) for i in p.doc.iter("input")
                             if i.attrib.get("name") == "feature_id" and i.attrib.get("type") == "hidden"])
            self.step("overview", "GET", "/index/0/?top_k_features=1000", want={"feature": 0, "cluster": -1, "k": 1000, "n": 5, "docs": 1})
            if self.case["steps"][-1]["status"] == 200:
                self.shown(self.case["steps"][-1], "index")
            self.export()
            fs = rng.sample(fids, len(fids) // 2)
            posted("feature/pin", {"name": "pinf", "fs": fs, "on": 1}, index, feature_id=fs)
            fs = rng.sample(fids, len(fids) // 2)
            posted("feature/remove_from_model", {"name": "delfeatures", "fs": fs}, index, feature_id=fs)
            ids = self.cluster_ids()
            cs = rng.sample(ids, max(1, len(ids) * 2 // 3))
            posted("cluster/merge", {"name": "merge", "cs": cs}, {"to": "cluster", "cluster": -1}, cluster_id=cs)
            ids = self.cluster_ids()
            cs = rng.sample(ids, max(1, len(ids) * 2 // 3))
            posted("cluster/delete", {"name": "delclusters", "cs": cs}, index, cluster_id=cs)
        return self.case


NO_PAGE = {"clusters": [], "total": -1, "sample": 0, "docs": []}


def target(loc):
    """[kind, cluster, feature] of an address"""
    u = urlsplit(loc)
    q = dict(parse_qsl(u.query))
    f = int(q["feature_id"]) if q.get("feature_id", "").isdigit() else 0
    m = re.fullmatch(r"/index/0/cluster/(-?\d+)/?", u.path)
    if m:
        return ["cluster", int(m[1]), f]
    if u.path.rstrip("/") == "/index/0":
        return ["pivot", int(q["cluster_id"]), f] if "cluster_id" in q else ["index", -1, f]
    if u.path.rstrip("/") == "/index/0/details":
        return ["details", -1, 0]
    return ["listing" if u.path.rstrip("/") == "/index" else "other", -1, 0] if loc else ["none", -1, 0]


def history(c, seed):
    site = Site(c, seed)
    try:
        return [site.run(c.n(25, 40))]
    finally:
        site.close()


def large(c, arg):
    seed, *size = arg
    site = Site(c, seed, size)
    try:
        return site.run_large()
    finally:
        site.close()
