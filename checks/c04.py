"""C04: what an evaluation returns depends on the problem and the point only (noise: on the draws since the reset)."""
import core
from evalcommon import go, sweep


def main():
    c = core.Check("C04", assumptions=["the reference value of a point is the one a fresh process returns for it as its first evaluation"])
    go(c, c.n(60, 500), 70, True, False, True, core.SEED + 1)
    sweep(c, core.SEED, c.n(1, 6))
    return c.finish()
