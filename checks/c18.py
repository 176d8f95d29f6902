"""C18: repeating an experiment."""
import core, pyutil

MC = "SPECIFICATION Spec\nCONSTANTS SuiteC=%d Mult=%d MS=%d MaxE=%d\nINVARIANTS Balanced FirstSweep Finished Useful OneSweepFor0\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n"
GEN = "SPECIFICATION Spec\nCONSTANTS Len1=%d\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"


def main():
    c = core.Check("C18", assumptions=["single runs are represented by their number of evaluations and whether the final target was hit"])
    for s, mu, ms, me in [(1, 2, 2, 2), (1, 0, 11, 1), (2, 2, 3, 2), (3, 2, 2, 2)] + c.n([], [(1, 3, 3, 2), (2, 3, 5, 3), (3, 3, 4, 2)]):
        c.model("RepeaterMC", MC % (s, mu, ms, me), workers=8, mem="6g")
    behs = []
    for k, (n, num) in enumerate([(25, c.n(600, 4000)), (70, c.n(500, 4000)), (160, c.n(80, 800)), (400, c.n(40, 400))]):
        b, r = core.behaviours("RepeaterGen", GEN % n, num, n + 2, core.SEED + 180 + k)
        behs += b
    traces, behs = pyutil.split(c, "ExperimentRepeater", pyutil.run("repeater", behs), behs)
    if traces:
        c.sample(traces[0])
        c.conform("RepeaterTrace", traces, remake=lambda q: pyutil.run("repeater", [behs[q]])[0], describe=lambda q: behs[q], chunk=200)
    return c.finish()
