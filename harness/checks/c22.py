"""C22: the StackExchange corpus keeps sites apart and document keys stable."""
from .. import core
from ..sx import *

CFG = ("SPECIFICATION Spec\nCONSTANTS Sites={s} Ids={i} MaxAdds={n}\n"
       "INVARIANTS SameDocuments TablesAgree KeysStable\nCHECK_DEADLOCK FALSE\n")


def run(c):
    c.model("StackExchange", CFG.format(s="{1,2}", i="{1,2}", n=1), name="StackExchange (1 dump)")
    if c.thorough:
        c.model("StackExchange", CFG.format(s="{1,2}", i="{1,2}", n=2), name="StackExchange (2 dumps)", timeout=3000)
    cases = c.drive(random_history, [c.seed * 10**6 + i for i in range(c.n(500, 8000))])
    cases += c.drive(large, [(c.seed * 10**6 + i, *x) for i in range(c.n(1, 6)) for x in ((2200, 100), (20, 1300))])
    args = []
    for s in range(c.n(2, 12)):
        for first in (0, 1):
            seed = c.seed * 1000 + s
            m = statements(c, seed, first)
            for k in range(1, m + 1):
                for kind in ("error", "interrupt", "crash"):
                    for where in ("before", "after"):
                        args.append((kind, where, k, first, seed))
    c.extra["fault_points"] = len(args)
    cases += c.drive(faulty, args)
    c.validate("SxTrace", cases)
