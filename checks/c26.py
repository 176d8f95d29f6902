"""C26: random numbers and log levels are deterministic and independent."""
import random
import core, build, randtr


def main():
    c = core.Check("C26", assumptions=["numbers are compared to ten decimals"])
    build.driver()
    c.model("RandLogMC", "SPECIFICATION Spec\nCONSTANT MaxOps=%d\nINVARIANTS NoGaps Quiet Heard InOrder\nCHECK_DEADLOCK FALSE\n" % c.n(5, 6), workers=8)
    depth = c.n(50, 90)
    behs, r = core.behaviours("RandLogGen", "SPECIFICATION Spec\nCONSTANT Depth=%d\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % depth, c.n(80, 800), depth + 1, core.SEED)
    c.states += r.distinct; c.transitions += r.generated
    jobs = [randtr.Job(b, random.Random("C26/%d/%d" % (core.SEED, n))) for n, b in enumerate(behs)]
    traces = core.pmap(lambda j: j.trace(), jobs)
    c.notes["numbers_drawn"] = sum(e["op"] in ("uni", "norm") for t in traces for e in t["ev"])
    c.notes["messages"] = sum(e["op"] == "msg" for t in traces for e in t["ev"])
    c.sample({"seeds": jobs[0].seeds, "ev": traces[0]["ev"][:5]})
    c.conform("RandLogTrace", traces, remake=lambda k: jobs[k].trace(), describe=lambda k: {"script": jobs[k].L[:400]}, chunk=20)
    return c.finish()
