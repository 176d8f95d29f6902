"""C06: observing a problem changes nothing an algorithm can see; removing the observer gives the problem back."""
import core, evaltr
from evalcommon import go


def main():
    c = core.Check("C06", assumptions=["recommendations through an observer stacked on another observer are excluded (known finding)"])
    go(c, c.n(70, 600), 80, True, True, False, core.SEED + 3)
    known(c)
    return c.finish()


def known(c):
    """The recorded finding: a recommendation through a bbob observer stacked on another observer."""
    L = [["obs", 0, "toy", "result_folder: A0"], ["obs", 1, "bbob", "result_folder: A1"], ["suite", 0, "bbob", "instances: 1", ""],
         ["getfdi", 0, 1, 2, 1, 0], ["add", 0, 0], ["add", 0, 1], ["rec", 0, "1", "2"], ["rem", 0, 1], ["rem", 0, 0], ["pstate", 0]]
    r = core.run_script(L, core.scratch() / "known")
    n = r.events[-1].get("n") if len(r.events) == len(L) else None
    if n != 0:
        c.violation("recommendation through a bbob observer stacked on a toy observer changes the counter to %s" % n,
                    {"what": {"scenario": "stacked-recommend", "n": n, "script": L}})
