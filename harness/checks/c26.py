"""C26: a corpus of tweets shows the latest version of what was collected on purpose."""
from ..tweets import *

CFG = ("SPECIFICATION Spec\nCONSTANTS Ids={i} Users={u} Times3={t} MaxSeen={n}\n"
       "INVARIANTS LatestAgree DocumentsAgree RetweetsPoint OneName\nPROPERTY Grows\nCHECK_DEADLOCK FALSE\n")


def run(c):
    c.model("Tweets", CFG.format(i="{1,2}", u="{1,2}", t="{1,2}", n=3), name="Tweets (3 observations)")
    if c.thorough:
        c.model("Tweets", CFG.format(i="{1,2}", u="{1,2}", t="{1,2}", n=4), name="Tweets (4 observations)", timeout=3000)
    cases = c.drive(large, [(c.seed * 100 + i, 1150) for i in range(c.n(1, 8))])
    cases += c.drive(random_history, [c.seed * 10**6 + i for i in range(c.n(800, 12000))])
    c.validate("TweetsTrace", cases)
