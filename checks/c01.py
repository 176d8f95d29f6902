"""C01: iterating over a suite delivers every selected problem exactly once, in order, then ends."""
import core
from suitecommon import *


def main():
    c = core.Check("C01", assumptions=["behaviour of the iteration after it has reported the end is not specified",
                                       "problems are recognised by their identifier, dimension and index"])
    c.model("SuiteMC", MC)
    behs, r = core.behaviours("SuiteGen", gen_cfg(FAST, 24, 2), c.n(120, 900), 25, core.SEED)
    c.states += r.distinct; c.transitions += r.generated

    def tail(b, rnd):
        b = list(b)
        for s in sorted({h["s"] for h in b}):
            b.append({"op": "iter", "s": s, "max": c.n(160, 700)})
        return b
    run(c, behs, tail)
    b2, r = core.behaviours("SuiteGen", gen_cfg(["bbob-largescale", "bbob-biobj-mixint"], 8, 1), c.n(12, 60), 9, core.SEED)
    run(c, b2, lambda b, rnd: list(b) + [{"op": "iter", "s": 0, "max": c.n(10, 60)}])
    # complete passes without filters over all functions and instances of one or two dimensions
    full = []
    for n in ALL if c.thorough else ["toy", "bbob", "bbob-boxed", "bbob-constrained", "bbob-noisy"]:
        opts = [] if n == "toy" else [{"k": "dimension_indices", "r": [[1, 2]], "y": 0}]
        full.append([{"op": "suite", "s": 0, "name": n, "inst": [], "opts": opts}, {"op": "iter", "s": 0, "max": 20000}])
    full.append([{"op": "suite", "s": 0, "name": "toy", "inst": [], "opts": []}, {"op": "iter", "s": 0, "max": 20000}])
    run(c, full, None)
    return c.finish()
