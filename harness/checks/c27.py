"""C27: free text becomes the words it is made of (WordsTrace.tla)."""
import datetime as dt
import itertools
import random

from .. import core, sim

NAMES = {"é": "eacute", "É": "Eacute", "İ": "Idot", "\u0307": "dot", "\u0301": "acute", "א": "alef", "ア": "ka", "٣": "three", "\n": "nl",
         "\r": "cr", "\u3000": "wide", "\t": "tab", "\u00a0": "nbsp", "‘": "left", "’": "right", "“": "open", "”": "close", "日": "sun", "🙂": "smile"}
# no marks before punctuation: there the regex library doesn't follow Unicode
MARKED = ["e\u0301", "e\u0301\u0301", "İ", "5\u0301", "א\u0301"]
ALL = "aBx5é" + "ÉאアA٣0:.,_'\"‘’“”-!#@/日🙂 \u3000\n\r\t\u00a0" + "https"
WIDE = ["http://", "https://", "HTTP://", "#", "@", "http", "://", "'s", "’s", "a’b", "5,0", "\r\n", "  ", " '", "' "]
CFG = ("SPECIFICATION Spec\nCONSTANTS Alphabet={a} MaxLen={n}\n"
       "INVARIANTS Complete Solid Stable Local Agrees Posts\nPROPERTY Appends\nCHECK_DEADLOCK FALSE\n")


def named(s):
    return [NAMES.get(x, x) for x in s]


def step(k, s):
    f = sim.corpus.utilities.tokens if k == "words" else sim.corpus.utilities.social_media_tokens
    return {"k": k, "in": named(s), "got": [named(w) for w in f(s)]}


def texts(c, how):
    """a bundle of texts"""
    k, arg = how
    rng = random.Random(str(how))
    steps = []
    if k == "all":
        alphabet, first, n = arg
        for rest in itertools.product(alphabet, repeat=n):
            steps.append(step("words", first + "".join(rest)))
    elif k == "random":
        for _ in range(200):
            parts = []
            for _ in range(rng.choice([1, 5, 8, 15])):
                x = rng.choice(ALL)
                parts.append(x)
                if rng.random() < 0.1:
                    parts.append(rng.choice(MARKED) + rng.choice("as5 "))
                if rng.random() < 0.2:
                    parts.append(rng.choice(WIDE))
            s = "".join(parts)
            steps.append(step("words", s))
            steps.append(step("post", s))
    elif k == "long":
        # far more words than a text usually has, and words longer than any
        words = ["a", "Bx", "5", "pi't", "é", "日", "'", "#a", "@B", "https://a.b", "a" * 80, "5.5", "\n"]
        s = " ".join(rng.choice(words) for _ in range(arg[1]))
        steps.append(step("words", s))
        steps.append(step("post", s))
        steps.append(step("words", "a5" * (arg[1] // 4) + " é"))
    else:
        for _ in range(50):
            z = rng.choice([None, dt.timezone.utc, dt.timezone(dt.timedelta(hours=9, minutes=30)), dt.timezone(dt.timedelta(hours=-11))])
            d = dt.datetime(rng.choice([1, 1969, 2000, 2024, 9999]), rng.choice([1, 2, 12]), rng.choice([1, 28]),
                            rng.choice([0, 12, 23]), rng.choice([0, 30, 59]), rng.choice([0, 59]), rng.choice([0, 1, 999999]), z)
            got = sim.corpus.utilities.round_datetime(d)
            steps.append({"k": "time", "d": flat(d), "got": [flat(got[g]) for g in ("minute", "hour", "day", "month", "year")]})
    return {"steps": steps}


def flat(d):
    off = d.utcoffset()
    return [d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond, 9999 if off is None else int(off.total_seconds()) // 60]


def run(c):
    names = lambda s: "{" + ",".join('"%s"' % x.replace('"', '\\"') for x in named(s)) + "}"
    c.model("Words", CFG.format(a=names("a5.',: \n"), n=c.n(4, 5)), name="Words (letters, digits, punctuation, blanks)", timeout=3000)
    c.model("Words", CFG.format(a=names("Aא\"’_ ア"), n=c.n(4, 5)), name="Words (scripts, quotes)", timeout=3000)
    c.model("Words", CFG.format(a=names("#@a '-\r\n"), n=c.n(4, 5)), name="Words (mentions, line ends)", timeout=3000)
    jobs = []
    for alphabet in ("a5.', -\n", "aא\"’_5 ", "Éア_.a:日") if not c.thorough else ("a5.', -\n:", "aא\"’_5 ア", "Éア_.a:日'"):
        jobs += [("all", (alphabet, x, n)) for x in alphabet for n in range(c.n(4, 5))]
    jobs += [("random", c.seed * 10**6 + i) for i in range(c.n(100, 2000))]
    jobs += [("long", (c.seed * 10**6 + i, n)) for i in range(c.n(1, 4)) for n in (300, 1100)]
    jobs += [("times", c.seed * 10**6 + i) for i in range(c.n(10, 100))]
    cases = c.drive(texts, jobs)
    c.validate("WordsTrace", cases)
