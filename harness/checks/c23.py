"""C23: opening a database is safe and migration preserves its content."""
from .. import core
from ..schema import *

CFG = ("SPECIFICATION Spec\nCONSTANTS Sessions={s} Versions={v} Opens={o}\n"
       "INVARIANTS DataKept RefusedUntouched WholeVersions NothingForgotten OpenedIsRight\nPROPERTY ReopeningChangesNothing\n"
       "CHECK_DEADLOCK FALSE\n")


def run(c):
    vs = "{3,4,5,6,7,8,9,10,11}"
    c.model("Schema", CFG.format(s="{s1}", v=vs, o=3), name="Schema (one session)")
    c.model("Schema", CFG.format(s="{s1,s2}", v=vs, o=c.n(2, 3)), name="Schema (two sessions)")
    cases = c.drive(upgrade, [(v, c.seed * 10**6 + i * 10 + v) for i in range(c.n(30, 500)) for v in range(4, 11)])
    cases += c.drive(upgrade, [(v, c.seed * 100 + i, "large") for i in range(c.n(1, 4)) for v in c.n((4, 7, 9), range(4, 11))])
    args = []
    for v in (0, 4, 5, 6, 7, 8, 9):
        for s in range(c.n(1, 8)):
            seed = c.seed * 1000 + s * 17 + v
            m = statements(c, v, seed)
            for k in range(1, m + 1):
                for kind in ("error", "interrupt", "crash", "second"):
                    for where in ("before", "after") if kind != "second" else ("before",):
                        args.append((v, kind, where, k, seed))
    c.extra["fault_points"] = len(args)
    cases += c.drive(faulty, args)
    cases += c.drive(other, [c.seed * 10**6 + i for i in range(c.n(600, 8000))])
    c.validate("SchemaTrace", [x for x in cases if "_model" not in x])
    c.validate("ModelTrace", [x for x in cases if "_model" in x], label="after the upgrade")
