"""C27: related suites agree on the functions they share."""
import gzip, json, random
import core, build, reltr

GEN = "SPECIFICATION Spec\nCONSTANT Depth=%d\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"


def main():
    c = core.Check("C27", assumptions=["values that differ by no more than 1e-10 (relations) or 1e-8 (reference values) of their size count as equal",
                                       "the reference values were recorded from the published code"])
    build.driver()
    c.model("RelationsMC", "SPECIFICATION Spec\nINVARIANTS Count Distinct Inside Complete Apart OnePair Growing\nCHECK_DEADLOCK FALSE\n")
    rnd = random.Random("C27 %d" % core.SEED)
    depth = c.n(10, 30)
    behs, r = core.behaviours("RelationsGen", GEN % depth, c.n(500, 2000), depth + 1, core.SEED + 27)
    c.states += r.distinct; c.transitions += r.generated
    bi, box = [], []
    for s, nf, ds in (("bbob-biobj", 55, [2, 3, 5, 10, 20, 40]), ("bbob-biobj-ext", 92, [2, 3, 5, 10, 20, 40]), ("bbob-biobj-mixint", 92, [5, 10, 20, 40, 80, 160])):
        for f in range(1, nf + 1):
            for d in rnd.sample(ds, c.n(3, 6)):
                bi.append((s, f, d, rnd.randrange(1, 16)))
    # instances that are not in the table: all functions are examined to find them, which takes time in high dimension
    bi += [(s, rnd.randrange(1, 56), d, rnd.randrange(16, 60)) for s, ds in (("bbob-biobj", [2, 3, 5, 10]), ("bbob-biobj-ext", [2, 5]), ("bbob-biobj-mixint", [5, 10, 80])) for d in ds for _ in range(c.n(1, 5))]
    for f in range(1, 25):
        for d in rnd.sample([2, 3, 5, 10, 20, 40], c.n(3, 6)):
            box += [(f, d, i) for i in rnd.sample(range(1, 120), c.n(2, 8))]
    groups, where = [], []

    def group(cls, keys, size):
        for a in range(0, len(keys), size):
            ks = keys[a:a + size]
            groups.append(cls(ks, [behs[(a + q) % len(behs)] for q in range(len(ks))], "%d/%s/%d" % (core.SEED, cls.__name__, a)))
            where.extend((len(groups) - 1, q) for q in range(len(ks)))
    group(reltr.Bi, bi, 20)
    group(reltr.Box, box, 12)
    want = json.loads(gzip.decompress((core.VERIF / "ref" / "values.json.gz").read_bytes()))
    keys = reltr.ref_keys()
    for a in range(0, len(keys), 40):
        ks = keys[a:a + 40]
        groups.append(reltr.Ref(ks, [want["%s %d %d %d" % k] for k in ks]))
        where.extend((len(groups) - 1, q) for q in range(len(ks)))
    res = core.pmap(lambda g: g.traces(), groups)
    traces = [res[g][q] for g, q in where]
    c.notes.update(bi_objective=len(bi), boxed=len(box), reference_problems=len(keys), comparisons=sum(len(t["ev"]) for t in traces))
    c.sample({"key": traces[0]["key"], "ev": traces[0]["ev"][:4]})
    c.conform("RelationsTrace", traces, remake=lambda k: groups[where[k][0]].traces()[where[k][1]],
              describe=lambda k: {"key": traces[k]["key"], "script": groups[where[k][0]].L}, chunk=600)
    return c.finish()
