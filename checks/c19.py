"""C19: batches partition the suite; consecutive instances are counted."""
import core, pyutil

MC = "SPECIFICATION Spec\nCONSTANTS G=%d Sweeps=%d MaxI=2\nINVARIANTS Partition SameEverySweep Even\nCHECK_DEADLOCK FALSE\n"
GEN = "SPECIFICATION Spec\nCONSTANTS Len1=%d\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"


def main():
    c = core.Check("C19", assumptions=["problems are asked for in the same order in every batch, as documented"])
    c.model("BatchesMC", MC % c.n((5, 3), (7, 4)), workers=8)
    behs = []
    for k, (n, num) in enumerate([(12, c.n(800, 6000)), (60, c.n(600, 4000)), (150, c.n(80, 800))]):
        b, r = core.behaviours("BatchesGen", GEN % n, num, n + 2, core.SEED + 190 + k)
        behs += b
    traces, behs = pyutil.split(c, "BatchScheduler", pyutil.run("batches", behs), behs)
    if traces:
        c.sample(traces[0])
        c.conform("BatchesTrace", traces, remake=lambda q: pyutil.run("batches", [behs[q]])[0], describe=lambda q: behs[q])
    return c.finish()
