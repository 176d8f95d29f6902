"""C21: one recorded trajectory for a sequence of budgets."""
import build, core, pyutil

MC = "SPECIFICATION Spec\nCONSTANTS NX=%d MaxRec=%d\nINVARIANTS Bound OnlyGrows DeliveredRecorded FirstRun\nCHECK_DEADLOCK FALSE\n"
GEN = "SPECIFICATION Spec\nCONSTANTS Len1=%d\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"


def main():
    c = core.Check("C21", assumptions=["the recorded trajectory is what the observed problem is called with (the recording itself is C07)"])
    c.model("NonAnytimeMC", MC % c.n((3, 5), (3, 7)), workers=8)
    behs = []
    for k, (n, num) in enumerate([(10, c.n(1000, 8000)), (40, c.n(600, 4000)), (120, c.n(60, 600))]):
        b, r = core.behaviours("NonAnytimeGen", GEN % n, num, n + 2, core.SEED + 210 + k)
        behs += b
    for kind, bs, pp in [("nonanytime", behs, None), ("nonanytime_real", behs[::c.n(6, 2)], build.cocoex())]:
        traces, bs = pyutil.split(c, "ProblemNonAnytime", pyutil.run(kind, bs, pp, chunk=60 if pp else 300), bs)
        if traces:
            c.sample(traces[0])
            c.conform("NonAnytimeTrace", traces, remake=lambda q: pyutil.run(kind, [bs[q]], pp)[0], describe=lambda q: bs[q])
    return c.finish()
