"""C21: a plain text corpus holds exactly the texts of its last replacement."""
import json
import random

from .. import core
from ..plaintext import *

CFG = ("SPECIFICATION Spec\nCONSTANTS Texts={t} MaxLen={n} MaxOps={o} MaxReads={r} Emit={e}\n"
       "INVARIANTS Whole UniqueKeys OneVersion EmitRuns\nPROPERTY AllOrNothing\nCHECK_DEADLOCK FALSE\n")


def run(c):
    r = c.model("PlainCorpus", CFG.format(t="{1,2}", n=2, o=2, r=1, e="TRUE"), name="PlainCorpus (2 replacements, all behaviours)")
    runs = sorted(json.dumps(x) for x in r.records("RUN"))
    if c.thorough:
        c.model("PlainCorpus", CFG.format(t="{1,2}", n=3, o=3, r=1, e="FALSE"), name="PlainCorpus (3 replacements)")
    rng = random.Random(c.seed)
    c.extra["behaviours_of_the_specification"] = len(runs)
    picked = runs if c.thorough else rng.sample(runs, min(len(runs), 1200))
    cases = c.drive(replay, [json.loads(x) for x in picked])
    cases += c.drive(random_history, [c.seed * 10**6 + i for i in range(c.n(600, 12000))])
    cases += c.drive(large, [c.seed * 10**6 + i for i in range(c.n(12, 100))])
    args = []
    for wal in (0, 1):
        for n in (0, 1, 3) if not c.thorough else (0, 1, 2, 3, 5):
            p = c.path("count")
            if wal:
                x = PlainTextSqliteCorpus(p)
                x.replace_docs(["a"])
                x.close()
            m = statements(p, ["t"] * n)
            for k in range(1, m + 1):
                for kind in ("error", "interrupt", "crash"):
                    for where in ("before", "after") + (("row",) if n > 1 else ()):
                        for s in range(c.n(1, 6)):
                            args.append((kind, where, k, n, wal, c.seed * 100 + s))
    c.extra["fault_points"] = len(args)
    cases += c.drive(faulty, args)
    c.validate("PlainCorpusTrace", cases)
