"""C23: mixed-integer problems see only admissible integer values."""
import random
import core, build, reltr


def main():
    c = core.Check("C23", assumptions=["a coordinate exactly between two integers may be seen as either", "values of the continuous problem are compared within the spread of its values at points displaced by 1e-11, plus 1e-9"])
    build.driver()
    c.model("MixintMC", "SPECIFICATION Spec\nCONSTANT Step=%d\nINVARIANTS NearestRight Idempotent Monotone Split\nCHECK_DEADLOCK FALSE\n" % c.n(5, 1), workers=4)
    rnd = random.Random("C23 %d" % core.SEED)
    groups, where = [], []
    depth = c.n(16, 40)
    for d in (5, 10, 20, 40, 80, 160):
        behs, r = core.behaviours("MixintGen", "SPECIFICATION Spec\nCONSTANTS Depth=%d D=%d\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % (depth, d), c.n(60, 300), depth + 1, core.SEED + d)
        c.states += r.distinct; c.transitions += r.generated
        keys = [("bbob-mixint", f, d, i) for f in range(1, 25) for i in rnd.sample(range(1, 60), c.n(3 if d <= 20 else 1, 10 if d <= 40 else 4))]
        fs = range(1, 93) if d == 5 or c.thorough and d <= 20 else rnd.sample(range(1, 93), c.n(30 if d <= 20 else 10, 40))
        keys += [("bbob-biobj-mixint", f, d, rnd.randrange(1, 16)) for f in fs]
        for a in range(0, len(keys), 8):
            ks = keys[a:a + 8]
            groups.append(reltr.Mix(ks, [behs[(a + q) % len(behs)] for q in range(len(ks))], "%d/%d/%d" % (core.SEED, d, a)))
            where += [(len(groups) - 1, q) for q in range(len(ks))]
    res = core.pmap(lambda g: g.traces(), groups)
    traces = [res[g][q] for g, q in where]
    c.notes["problems"] = len(traces)
    c.notes["evaluations"] = sum(len(t["ev"]) for t in traces)
    c.sample({"key": traces[0]["key"], "ev": traces[0]["ev"][:4]})
    c.conform("MixintTrace", traces, remake=lambda k: groups[where[k][0]].traces()[where[k][1]],
              describe=lambda k: {"key": traces[k]["key"], "script": groups[where[k][0]].L}, chunk=40)
    return c.finish()
