"""C15: a fixed seed gives the same result whatever the workers do."""
import json
import os
import random
import subprocess
import sys

from .. import core, model, sim, twin
from ..corpora import *

CFG = ("SPECIFICATION Spec\nCONSTANTS Clusters={c} Features={f} Scores={s} W1={a} W2={b}\nINVARIANTS Same Ends\n"
       "CHECK_DEADLOCK FALSE\n")
VARIANTS = [(0, "0"), (1, "1"), (2, "random"), (3, "77")]


def template(c, rng):
    n, nf = rng.choice([5, 9, 16]), rng.choice([6, 12, 24])
    docs = []
    words = rng.sample([v for v in WORDS if v.strip() and " " not in v], 8)
    tags = rng.sample(VALUES, min(nf, len(VALUES)))
    for d in range(n):
        rec = {"text": [rng.choice(words) for _ in range(rng.randint(0, 9))],
               "tags": {t for t in tags if rng.random() < 0.35}}
        if nf == 24:
            rec["n"] = {t for t in tags if rng.random() < 0.2}
            rec["x'y"] = {t for t in tags if rng.random() < 0.2}
        docs.append((d * 3 + 1, rec))
    p = c.path("tpl")
    idx = model.build(p, FullCorpus(docs), sim.SimPool(workers=2), pos=True, batch=rng.choice([2, 3, 1000]))
    idx.close()
    db = model.raw(p)
    db.execute("pragma wal_checkpoint(truncate)")
    db.close()
    with open(p + ".json", "w") as f:
        json.dump([[k, [[a, "seq" if isinstance(v, list) else "set", list(v)] for a, v in r.items()]] for k, r in docs], f)
    return p


def run(c):
    c.model("Twins", CFG.format(c="{1,2}", f="{1,2}", s="{0,1}", a=1, b=2), name="Twins (1 and 2 workers)")
    if c.thorough:
        c.model("Twins", CFG.format(c="{1,2,3}", f="{1,2}", s="{0,1}", a=2, b=3), name="Twins (2 and 3 workers)", timeout=3000)
    rng = random.Random(c.seed)
    tpls = [template(c, rng) for _ in range(c.n(8, 40))]
    n = c.n(360, 8000)
    jobs = [[tpls[i % len(tpls)], c.seed * 10**5 + i, (c.seed + i) * 7, 0] for i in range(n)]
    parts = max(1, core.CORES // 2) if not c.thorough else core.CORES
    procs = []
    results = {}
    pending = []
    for v, (variant, hashseed) in enumerate(VARIANTS):
        for p in range(parts):
            mine = [[t, h, s, variant] for t, h, s, _ in jobs[p::parts]]
            a, b = (os.path.join(c.workdir, f"{k}{v}_{p}.json") for k in ("jobs", "out"))
            with open(a, "w") as f:
                json.dump(mine, f)
            pending.append((v, p, a, b, hashseed))
    while pending or procs:
        while pending and len(procs) < core.CORES:
            v, p, a, b, hashseed = pending.pop(0)
            procs.append((v, p, b, subprocess.Popen(
                [sys.executable, "-B", "-m", "harness.twin", a, b], cwd=core.VERIF,
                env={**os.environ, "PYTHONHASHSEED": hashseed}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        v, p, b, proc = procs.pop(0)
        text, _ = proc.communicate()
        if proc.returncode:
            c.fail("C15:unexpected-exception", None, detail=text[-3000:])
            continue
        with open(b) as f:
            results[v, p] = json.load(f)
    cases, differ = [], 0
    for p in range(parts):
        if not all((v, p) in results for v in range(len(VARIANTS))):
            continue
        for k in range(len(jobs[p::parts])):
            runs = [results[v, p][k] for v in range(len(VARIANTS))]
            m = min(len(r) for r in runs)
            cases.append({"steps": [{"runs": [{"call": r[i][0], "result": json.dumps(r[i][1]), "state": json.dumps(r[i][2])} for r in runs]}
                                    for i in range(m)]})
    c.extra["sessions_compared"] = len(VARIANTS)
    c.validate("TwinsTrace", cases)
