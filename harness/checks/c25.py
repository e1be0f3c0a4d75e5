"""C25: the commands do to the files what they say, and nothing else."""
from ..cli import *

CFG = ("SPECIFICATION Spec\nCONSTANTS Words={w} MaxLines={l} MaxCommands={n} People={p}\n"
       "PROPERTIES CorpusChanges IndexChanges ModelChanges ExportsAreTrue ForeignIsKept OthersUntouched\nCHECK_DEADLOCK FALSE\n")


def run(c):
    c.model("Cli", CFG.format(w="{1,2}", l=c.n(1, 2), n=3, p="{p1}"), name="Cli (one user)")
    c.model("Cli", CFG.format(w="{1}", l=1, n=c.n(2, 3), p="{p1,p2}"), name="Cli (two users)")
    cases = c.drive(large, [(c.seed * 100 + i, *x) for i in range(c.n(1, 8)) for x in ((5200, 300, 3), (2000, 1100, 2), (1200, 300, 130))])
    cases += c.drive(history, [c.seed * 10**6 + i for i in range(c.n(600, 8000))])
    c.validate("CliTrace", cases)
