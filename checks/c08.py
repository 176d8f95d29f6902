"""C08: the .tdat file has a row at every evaluation trigger and for the last evaluation."""
import core
from bbobcommon import go


def main():
    c = core.Check("C08", assumptions=["runs up to about two thousand evaluations", "the number of logarithmic triggers is the default (known finding K3)"])
    go(c, c.n(120, 900), 70, "run", core.SEED + 32, ["tdat"], mc=c.n(6, 8))
    return c.finish()
