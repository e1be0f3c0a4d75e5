"""Corpora of the specification, and their translation to and from the numbers used in traces."""
import random

from . import sim
from .sim import corpus as hc

# Values in the order in which the database sorts them: numbers, then text by code point.
VALUES = [-7, -0.5, 0, 2.5, 3, 5, 10, 2**40, "", " ", "'", '"q"', "10", "5", "A", "Z", "a", "a b", "aa", "b", "c'd", "d", "e",
          "e\u0301", "é", "ß", "日本", "\U0001f600"]
VALUES.sort(key=lambda v: (isinstance(v, str), 0 if isinstance(v, str) else v, str(v).encode()))
ORD = {(type(v), v): i + 1 for i, v in enumerate(VALUES)}
FIELDS = ["text", "tags", "a field", "Ünï", "x'y", "n", "Text", "tags "]
FORD = {f: i + 1 for i, f in enumerate(FIELDS)}
WORDS = [v for v in VALUES if isinstance(v, str)]


# Any number of further values, sorted after all others, for large corpora.
BIG = "\U0001f601"


def val(n):
    """value number n"""
    return VALUES[n - 1] if n <= len(VALUES) else f"{BIG}{n:06d}"


def vnum(v):
    """number of a value; 0 for a missing one, -1 for one that isn't part of the specification"""
    if v is None:
        return 0
    if isinstance(v, str) and v[:1] == BIG:
        return int(v[1:]) if v[1:].isdigit() and len(v) == 7 else -1
    return ORD.get((type(v), v), -1)


def fnum(f):
    return FORD.get(f, -1)


class SpecCorpus(hc.BaseCorpus):
    """docs: list of (key, {field: list or set})"""

    CORPUS_TYPE = "SpecCorpus"

    def __init__(self, docs, fail_key=None):
        self._docs = list(docs)
        self._map = dict(self._docs)
        self.fail_key = fail_key

    def __getstate__(self):
        return self._docs, self.fail_key

    def __setstate__(self, s):
        self.__init__(*s)

    def docs(self, doc_keys=None):
        for k in (self._map if doc_keys is None else doc_keys):
            if self.fail_key is not None and k == self.fail_key:
                raise RuntimeError("injected corpus failure")
            yield k, {"key": k, "fields": self._map[k]}

    def keys(self):
        return (k for k, _ in self._docs)

    def index(self, doc):
        # fresh containers, as a real corpus would build them
        return {f: type(v)(v) for f, v in doc["fields"].items()}


class WebCorpus(SpecCorpus):
    CORPUS_TYPE = "WebCorpus"

    def render_docs_html(self, doc_keys):
        return [(k, f"html of {k!r}") for k, _ in self.docs(doc_keys)]


class TableCorpus(SpecCorpus):
    CORPUS_TYPE = "TableCorpus"
    table_fields = ["one", "two, \"x\""]

    def render_docs_table(self, doc_keys):
        return [(k, {"one": f"one {k}\nnext", "two, \"x\"": f"\"{k}\", é", "unlisted": "no"})
                for k, _ in self.docs(doc_keys)]


class FullCorpus(TableCorpus):
    CORPUS_TYPE = "FullCorpus"

    def render_docs_html(self, doc_keys):
        return [(k, f"html of {k!r}") for k, _ in self.docs(doc_keys)]


class MinimalCorpus(SpecCorpus):
    CORPUS_TYPE = "MinimalCorpus"


def gen_corpus(rng, n_docs=None, nones=True, words_only=False, fields=None, n_values=None, max_len=8, keys=None,
               cls=SpecCorpus, empties=True):
    """A random corpus; sequences and sets, missing fields, empty containers, repeated and missing values."""
    if n_docs is None:
        n_docs = rng.choice([1, 2, 3, 5, 8, 13])
    fields = fields or rng.sample(FIELDS, rng.randint(1, 4))
    kinds = {f: rng.choice(["seq", "set", "seq", "mixed"]) for f in fields}
    vocab = rng.sample(WORDS if words_only else VALUES, n_values or rng.randint(2, 8))
    kind = keys or rng.choice(["int", "gap", "str"])
    if kind == "int":
        ks = list(range(1, n_docs + 1))
    elif kind == "gap":
        ks = rng.sample(range(-50, 10**6), n_docs)
    else:
        ks = [f"k{i}'{rng.randint(0, 99)}" for i in range(n_docs)]
        rng.shuffle(ks)
    docs = []
    for k in ks:
        d = {}
        for f in fields:
            if rng.random() < 0.15:
                continue
            n = rng.choice([0, 1, 2, 3, max_len]) if empties else rng.choice([1, 2, 3, max_len])
            vals = [rng.choice(vocab) for _ in range(n)]
            kd = kinds[f] if kinds[f] != "mixed" else rng.choice(["seq", "set"])
            if nones and vals and rng.random() < 0.25:
                if kd == "set" or nones == "all":
                    vals[rng.randrange(len(vals))] = None
            d[f] = vals if kd == "seq" else set(vals)
        docs.append((k, d))
    return cls(docs)


def mutate(rng, corpus, nones=True):
    """A changed version of the corpus: documents removed, changed, added, reordered."""
    docs = [(k, {f: type(v)(v) for f, v in d.items()}) for k, d in corpus._docs]
    other = gen_corpus(rng, n_docs=max(1, rng.randint(0, 4)), nones=nones, keys="int")
    kind = type(docs[0][0]) if docs else int
    docs = [x for x in docs if rng.random() > 0.25]
    base = 10**7 + rng.randrange(10**6)
    for i, (_, d) in enumerate(other._docs):
        docs.append((base + i if kind is int else f"new{base + i}", d))
    if docs and rng.random() < 0.5:
        k, d = docs[0]
        docs[0] = (k, other._docs[0][1])
    rng.shuffle(docs)
    return type(corpus)(docs)


def corpus_json(corpus, keynum):
    """In the form used by Inversion.tla"""
    out = []
    for k, d in corpus._docs:
        out.append({"key": keynum(k), "fields": [
            {"f": fnum(f), "seq": int(isinstance(v, (list, tuple))),
             "vals": [vnum(x) for x in (v if isinstance(v, (list, tuple)) else sorted(v, key=vnum))]}
            for f, v in d.items()]})
    return out


class Keys:
    """numbers for document keys"""

    def __init__(self):
        self.m = {}

    def __call__(self, k):
        kk = (type(k), k)
        if kk not in self.m:
            self.m[kk] = len(self.m) + 1
        return self.m[kk]

    def known(self, k):
        return self.m.get((type(k), k), -1)
