"""C24: the web interface shows and edits exactly the underlying index."""
from .. import core
from ..web import *

CFG = ("SPECIFICATION Spec\nCONSTANTS Requests={r} Features={f} MaxId={m} Follow={follow}\n"
       "INVARIANTS Released OtherIndexes PagesAreTrue RedirectsLead Applied Serial\nPROPERTIES OnlyByPost {live}\n"
       "CHECK_DEADLOCK FALSE\n")


def run(c):
    c.model("Web", CFG.format(r="{r1}", f="{1,2,3}" if c.n(0, 1) else "{1,2}", m=3, follow="TRUE", live="AlwaysReleased"), name="Web (one request, followed)")
    c.model("Web", CFG.format(r="{r1,r2}", f="{1,2}", m=2, follow="FALSE", live=""), name="Web (two requests)")
    cases = c.drive(large, [(c.seed * 100 + i, *x) for i in range(c.n(1, 6)) for x in ((1300, 300, 3), (300, 100, 120))])
    cases += c.drive(history, [c.seed * 10**6 + i for i in range(c.n(250, 4000))])
    c.validate("WebTrace", cases)
