"""C17: rows triggered by evaluations that had returned survive a crash; nothing that did not happen is in the files."""
import random
import build, core, bbobtr, biobjcommon
from bbobcommon import MC, cfg

ALLB = ["adat", "dat", "tdat", "rdat", "mdat"]
ALLF = ["dat", "tdat", "rdat", "mdat", "info"]


def main():
    c = core.Check("C17", level="fault_enumeration", assumptions=["the process ends without any cleanup, the operating system survives",
                                                                 "one output call (a formatted write, flush, open, close) is the grain of the enumeration"])
    build.driver(); build.crasher()
    c.model("LoggerBbobMC", MC % 6, workers=8)
    depth = 40
    behs, r = core.behaviours("LoggerBbobGen", 'SPECIFICATION Spec\nCONSTANTS Depth=%d Mode="run"\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n' % depth, c.n(14, 60), depth + 1, core.SEED + 41)
    b2, r2 = core.behaviours("LoggerBbobGen", 'SPECIFICATION Spec\nCONSTANTS Depth=%d Mode="group"\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n' % 24, c.n(10, 60), 25, core.SEED + 42)
    c.states += r.distinct + r2.distinct; c.transitions += r.generated + r2.generated
    jobs = []
    for k, b in enumerate(behs + b2):
        b = [dict(h, n=min(h["n"], 12)) if "n" in h else h for h in b]
        jobs.append(bbobtr.Job(b, random.Random("%d/%d/C17" % (core.SEED, k)), crash=True))
    runs = []
    for q, j in enumerate(jobs):
        vis = [n + 1 for n, a in enumerate(j.ask) if a and a["op"] in ("eval", "rec", "free", "rem", "restart", "add", "cons")]
        runs += [(q, n, None) for n in vis]
    # inside the operations: before every output call of the library
    inner = []
    for q, j in enumerate(jobs):
        j.run(at=0)
        total = j.count or 0
        pts = list(range(1, total + 1))
        rnd = random.Random(q)
        if len(pts) > c.n(110, 600):
            pts = sorted(rnd.sample(pts, c.n(110, 600)))
        inner += [(q, None, n) for n in pts]
    runs += inner

    def one(t):
        q, cut, at = t
        return jobs[q].trace(cut=cut, at=at)
    traces = core.pmap(one, runs)
    keep = [k for k in range(len(runs)) if jobs[runs[k][0]].skip is None]
    c.notes["evaluations"] = len(runs)
    c.notes["distinct_nontrivial"] = len({(runs[k][0], len(traces[k]["ev"]), runs[k][2]) for k in keep if any(e["op"] == "eval" for e in traces[k]["ev"])})
    c.notes["rule"] = "TLC-generated histories cut between and inside operations (before each output call); non-trivial: at least one evaluation had returned"
    for k in keep[40:42]:
        c.sample({"ev": traces[k]["ev"][-3:]})
    c.conform("LoggerBbobTrace", [traces[k] for k in keep], remake=lambda x: one(runs[keep[x]]), cfg=cfg(ALLF),
              describe=lambda x: {"script": jobs[runs[keep[x]][0]].L, "cut": runs[keep[x]][1:]}, chunk=250)
    biobj(c)
    return c.finish()


def biobj(c):
    """the bi-objective logger"""
    jobs = []
    for kind, num, depth in (("run", c.n(14, 80), 40), ("feed", c.n(8, 40), 24)):
        jobs += biobjcommon.jobs_of(c, kind, num, depth, core.SEED + 43)
    runs = []
    for q, j in enumerate(jobs):
        if not isinstance(j.L[0], list):
            continue
        runs += [(q, n + 1, None) for n, a in enumerate(j.ask) if a and a["op"] in ("eval", "rec", "feed", "release", "add")]
        j.trace(at=0)
        pts = list(range(1, (j.count or 0) + 1))
        rnd = random.Random(q)
        runs += [(q, None, n) for n in (pts if len(pts) <= c.n(60, 400) else sorted(rnd.sample(pts, c.n(60, 400))))]

    def one(t):
        q, cut, at = t
        return jobs[q].trace(cut=cut, at=at)
    traces = core.pmap(one, runs)
    keep = [k for k in range(len(runs)) if jobs[runs[k][0]].skip is None]
    c.notes["evaluations"] += len(runs)
    c.notes["distinct_nontrivial"] += len({(runs[k][0], len(traces[k]["ev"]), runs[k][2]) for k in keep if any(e["op"] == "eval" for e in traces[k]["ev"])})
    c.conform("LoggerBiobjTrace", [traces[k] for k in keep], remake=lambda x: one(runs[keep[x]]), cfg=biobjcommon.cfg(ALLB),
              describe=lambda x: {"script": jobs[runs[keep[x]][0]].L, "cut": runs[keep[x]][1:]}, chunk=120)
