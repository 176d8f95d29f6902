"""C05: evaluation counters, best observed feasible value and the final-target flag are exact."""
import core
from evalcommon import go


def main():
    c = core.Check("C05", assumptions=["values of single points are taken from isolated evaluations; what is decided is the bookkeeping over histories"])
    go(c, c.n(70, 600), 80, False, False, False, core.SEED + 2, mc=c.n(6, 8))
    return c.finish()
