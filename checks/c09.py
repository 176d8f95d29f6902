"""C09: info files account for every benchmarked problem; grouping into data files."""
import core
from bbobcommon import go


def main():
    c = core.Check("C09")
    go(c, c.n(250, 2500), 60, "group", core.SEED + 33, ["dat", "tdat", "rdat", "mdat", "info"], mc=c.n(6, 8))
    go(c, c.n(30, 300), 60, "run", core.SEED + 34, ["info"], mc=0)
    return c.finish()
