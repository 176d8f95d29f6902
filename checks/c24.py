"""C24: the rw and toy loggers write exactly the rows they promise."""
import random
import core, build, plaintr

CFG = "SPECIFICATION TraceSpec\nCONSTANT None=None\nINVARIANT Conforms\nCHECK_DEADLOCK FALSE\n"


def main():
    c = core.Check("C24", assumptions=["targets less than 1e-9 of a step away from a value and integer variables exactly between two integers are left out"])
    build.driver()
    c.model("PlainLogMC", "SPECIFICATION Spec\nCONSTANTS None=None MaxOps=%d\nINVARIANTS HeaderFirst HeadersRight RwNumbers RwBetter ToyHarder CrashSafe\nPROPERTY Grow\nCHECK_DEADLOCK FALSE\n" % c.n(5, 6), workers=8)
    depth = c.n(40, 90)
    behs, r = core.behaviours("PlainLogGen", "SPECIFICATION Spec\nCONSTANT Depth=%d\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % depth, c.n(400, 4000), depth + 1, core.SEED)
    c.states += r.distinct; c.transitions += r.generated
    jobs = core.pmap(lambda kb: plaintr.Job(kb[1], random.Random("C24/%d/%d" % (core.SEED, kb[0])), crash=kb[0] % 4 == 3), list(enumerate(behs)))
    traces = core.pmap(lambda j: j.trace(), jobs)
    keep = [k for k in range(len(jobs)) if jobs[k].skip is None]
    c.notes["left_out_at_boundaries"] = len(jobs) - len(keep)
    c.notes["rows"] = sum(len(f["lines"]) for k in keep for f in traces[k]["ev"][-1].get("files", []))
    c.sample({"ev": [traces[keep[0]]["ev"][0], traces[keep[0]]["ev"][-1]]})
    c.conform("PlainLogTrace", [traces[k] for k in keep], cfg=CFG, remake=lambda q: jobs[keep[q]].trace(),
              describe=lambda q: {"script": jobs[keep[q]].L, "died_after": jobs[keep[q]].cut}, chunk=25)
    return c.finish()
