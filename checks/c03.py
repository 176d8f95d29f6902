"""C03: the option strings select exactly the instances, functions and dimensions they name."""
import core
from suitecommon import *


def main():
    c = core.Check("C03", assumptions=["strings whose ranges lie completely outside the available indices are not covered (the code documents no meaning for them)"])
    c.model("SuiteMC", MC)
    behs, r = core.behaviours("SuiteGen", gen_cfg(ALL, 1, 1), c.n(700, 5000), 2, core.SEED + 23)
    c.states += r.distinct; c.transitions += r.generated
    from c02 import size

    def tail(b, rnd):
        b = list(b)
        h = b[0]
        nf, nd, ni = size(h)
        # the complete selection, item by item
        b += [{"op": "fof", "s": 0, "n": k} for k in range(nf)]
        b += [{"op": "dof", "s": 0, "n": k} for k in range(nd)]
        b += [{"op": "iof", "s": 0, "n": k} for k in range(ni)]
        return b
    # several creations per process: the driver re-uses the slot after freeing it
    run3(c, behs, tail)
    # every year of every suite that has years
    yb = []
    for n in ALL:
        if n == "toy":
            continue
        ys = {"bbob": list(range(2009, 2027)) + [0], "bbob-boxed": [2023, 0], "bbob-noisy": [2009]}.get(n, list(range(2016, 2027)))
        for y in ys:
            yb.append([{"op": "suite", "s": 0, "name": n, "inst": [{"k": "year", "r": [], "y": y}], "opts": []}])
        yb.append([{"op": "suite", "s": 0, "name": n, "inst": [], "opts": []}])
    run3(c, yb, tail)
    # lists of many entries (below the documented largest number of instances)
    import random
    lb, rnd = [], random.Random("C03 long %d" % core.SEED)

    def many(n, top, wide):
        out = []
        for _ in range(n):
            a = rnd.randint(1, top)
            out.append([a, min(top, a + rnd.randint(0, wide))] if rnd.random() < .3 else [a, a])
        return out
    for _ in range(c.n(60, 300)):
        n = rnd.choice(ALL)
        ins = many(rnd.choice([20, 150, 300, 480]), rnd.choice([9, 99, 999, 99999]), 1) if n != "toy" else [[1, 1]]
        opts = [{"k": k, "r": many(rnd.choice([5, 100, 400]), top, 2), "y": 0} for k, top in (("function_indices", 6), ("dimension_indices", 3), ("instance_indices", 1)) if rnd.random() < .5]
        lb.append([{"op": "suite", "s": 0, "name": n, "inst": [{"k": "instances", "r": ins, "y": 0}], "opts": opts}])
    run3(c, lb, tail, san=True)
    return c.finish()


def run3(c, behs, tail, san=False):
    """One trace per behaviour (one suite each); a suite that cannot be created has no selection to read."""
    import random, shutil, build, suitetr
    build.driver(san)
    jobs = []
    for k, b in enumerate(behs):
        rnd = random.Random("%d %d %s" % (core.SEED, k, c.id))
        jobs.append(suitetr.script(tail(b, rnd), rnd))

    def ex(k):
        d = core.scratch() / ("%s-%d" % (c.id, k))
        r = core.run_script(jobs[k][0], d, san=san)
        if r.events and r.events[0].get("ok") == 0:
            r.events, r.rc, r.partial = r.events[:1], 0, None
        shutil.rmtree(d, ignore_errors=True)
        return {"ev": suitetr.trace(r, jobs[k][1])}
    traces = core.pmap(ex, range(len(jobs)))
    for t in traces[:2]:
        c.sample(t["ev"][:6])
    c.notes["events"] = c.notes.get("events", 0) + sum(len(t["ev"]) for t in traces)
    c.conform("SuiteTrace", traces, remake=ex, describe=lambda k: {"script": jobs[k][0][:1]}, chunk=200)
