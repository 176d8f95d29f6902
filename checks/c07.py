"""C07: the .dat file has the first evaluation, every improvement that reaches a new target, and the last evaluation."""
import core
from bbobcommon import go


def main():
    c = core.Check("C07", assumptions=["runs that come closer to a target boundary than rounding allows are left out"])
    go(c, c.n(120, 900), 70, "run", core.SEED + 31, ["dat"], mc=c.n(6, 8))
    return c.finish()
