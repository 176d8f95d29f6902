"""C22: announced optimum, bounds and targets agree with the values."""
import random
import core, build, opttr
from evaltr import NF, dims

SUITES = ["bbob", "bbob-boxed", "bbob-mixint", "bbob-largescale", "bbob-constrained", "toy", "bbob-noisy"]


def main():
    c = core.Check("C22", assumptions=["a value below the announced optimum by less than 1e-11 of its size counts as equal to it", "values of the noisy suite are only bounded by the announced optimum, which belongs to the function without noise"])
    build.driver()
    c.model("OptimumMC", "SPECIFICATION Spec\nCONSTANTS R=4 MaxT=%d\nINVARIANTS Attained Minimal\nCHECK_DEADLOCK FALSE\n" % c.n(4, 6), workers=8)
    rnd = random.Random("C22 %d" % core.SEED)
    keys = []
    for s in SUITES:
        for f in range(1, NF[s] + 1):
            for d in dims(s):
                n = c.n(4, 16) if d <= 40 else 1
                ins = [1] if s == "toy" else [rnd.randrange(1, 16)] + [rnd.choice([rnd.randrange(1, 16), rnd.randrange(16, 200)]) for _ in range(n - 1)]
                keys += [(s, f, d, i) for i in sorted(set(ins))]
    depth = c.n(10, 30)
    behs, r = core.behaviours("OptimumGen", "SPECIFICATION Spec\nCONSTANT Depth=%d\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % depth, c.n(1200, 4000), depth + 1, core.SEED + 22)
    c.states += r.distinct; c.transitions += r.generated
    groups, where = [], []
    for a in range(0, len(keys), 12):
        ks = keys[a:a + 12]
        groups.append(opttr.Group(ks, [behs[(a + q) % len(behs)] for q in range(len(ks))], "%d/%d" % (core.SEED, a)))
        where += [(len(groups) - 1, q) for q in range(len(ks))]
    res = core.pmap(lambda g: g.traces(), groups)
    traces = [res[g][q] for g, q in where]
    c.notes["problems"] = len(traces)
    c.notes["evaluations"] = sum(len(t["ev"]) for t in traces)
    c.sample({"key": traces[0]["key"], "ev": traces[0]["ev"][:4]})
    c.conform("OptimumTrace", traces, remake=lambda k: groups[where[k][0]].traces()[where[k][1]],
              describe=lambda k: {"key": traces[k]["key"], "script": groups[where[k][0]].L}, chunk=500)
    return c.finish()
