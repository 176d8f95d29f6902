"""C15: releasing in any order is safe."""
import random
import core, build, lifetr, biobjtr, bbobtr, plaintr

MC = "SPECIFICATION Spec\nCONSTANT MaxOps=%d\nINVARIANTS Accounted OneEach ReleasedMeansDone Releasable\nCHECK_DEADLOCK FALSE\n"




def logged(c):
    """the histories of the loggers' specifications, run instrumented"""
    out = []

    def gen(mod, cfg, num, depth, make):
        b, r = core.behaviours(mod, "SPECIFICATION Spec\nCONSTANTS Depth=%d %s\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % (depth, cfg), num, depth + 1, core.SEED + 150)
        c.states += r.distinct; c.transitions += r.generated
        out.extend(core.pmap(make, list(enumerate(b))))

    def rnd(k):
        return random.Random("%d/%d/C15l" % (core.SEED, k))
    gen("LoggerBiobjGen", 'Mode="run"', c.n(60, 500), 90, lambda kb: biobjtr.Job(kb[1], rnd(kb[0]), "run"))
    gen("LoggerBiobjGen", 'Mode="feed"', c.n(40, 300), 60, lambda kb: biobjtr.Job(kb[1], rnd(kb[0]), "feed"))
    gen("LoggerBbobGen", 'Mode="run"', c.n(60, 500), 60, lambda kb: bbobtr.Job(kb[1], rnd(kb[0])))
    gen("LoggerBbobGen", 'Mode="group"', c.n(30, 300), 40, lambda kb: bbobtr.Job(kb[1], rnd(kb[0])))
    gen("PlainLogGen", "", c.n(60, 500), 40, lambda kb: plaintr.Job(kb[1], rnd(kb[0])))
    return [lifetr.Run(j.L) for j in out if j.skip is None and isinstance(j.L[0], list)]


def main():
    c = core.Check("C15", assumptions=["AddressSanitizer, LeakSanitizer and UndefinedBehaviorSanitizer observe the memory accesses of the replays"])
    build.driver(True)
    c.model("LifecycleMC", MC % c.n(6, 8), workers=8, mem="8g")
    depth = 60
    behs, r = core.behaviours("LifecycleGen", "SPECIFICATION Spec\nCONSTANT Depth=%d\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % depth, c.n(400, 4000), depth + 1, core.SEED + 15)
    c.states += r.distinct; c.transitions += r.generated
    jobs = [lifetr.Job(b, random.Random("%d/%d/C15" % (core.SEED, k))) for k, b in enumerate(behs)]
    jobs += logged(c)
    traces = core.pmap(lambda j: j.trace(), jobs)
    c.notes["events"] = sum(len(t["ev"]) for t in traces)
    c.sample({"ev": traces[0]["ev"][:6]})
    c.conform("LifecycleTrace", traces, remake=lambda q: jobs[q].trace(), describe=lambda q: {"script": jobs[q].L}, chunk=100)
    return c.finish()
