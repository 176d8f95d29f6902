"""C14: once the optimum has been read, the problem can no longer be benchmarked, whatever happens to its observers."""
import core
from evalcommon import go


def main():
    c = core.Check("C14")
    go(c, c.n(120, 900), 45, True, True, False, core.SEED + 4, tail_taint=True, mc=c.n(6, 8))
    known(c)
    return c.finish()


def known(c):
    """The recorded finding: the optimum is read through another observer on top of the bbob observer."""
    L = [["obs", 0, "rw", "result_folder: A0"], ["obs", 1, "bbob", "result_folder: A1"], ["suite", 0, "bbob", "instances: 1", ""],
         ["getfdi", 0, 1, 2, 1, 0], ["add", 0, 1], ["add", 0, 0], ["xopt", 0], ["eval", 0, "1", "2"]]
    r = core.run_script(L, core.scratch() / "known")
    if r.rc == 0 and len(r.events) == len(L):
        c.violation("an evaluation after the optimum was read through a rw observer on top of a bbob observer is not refused",
                    {"what": {"scenario": "stacked-taint", "script": L}})
