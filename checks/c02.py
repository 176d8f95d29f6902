"""C02: index, function/dimension/instance and iteration name the same problem."""
import core
from suitecommon import *


def main():
    c = core.Check("C02", assumptions=["problems are recognised by their identifier, dimension and index"])
    c.model("SuiteMC", MC)
    behs, r = core.behaviours("SuiteGen", gen_cfg(FAST, 14, 2), c.n(120, 900), 15, core.SEED + 11)
    c.states += r.distinct; c.transitions += r.generated

    def tail(b, rnd):
        b = list(b)
        for h in [h for h in b if h["op"] == "suite"]:
            nf, nd, ni = 200, 6, 40
            s = h["s"]
            if rnd.random() < 0.3:
                b.append({"op": "next", "s": s})
            for q in range(30):
                n = rnd.choice([rnd.randrange(0, 40), rnd.randrange(0, 300), rnd.randrange(0, 2000)])
                b.append({"op": "GET?", "s": s, "n": n})
        return b

    def shape(b):
        return b
    run2(c, behs, tail)
    # suites whose problems are expensive to create: mostly their first dimensions
    behs, r = core.behaviours("SuiteGen", gen_cfg(HEAVY, 6, 1), c.n(40, 200), 7, core.SEED + 12)
    c.states += r.distinct; c.transitions += r.generated
    run2(c, behs, lambda b, rnd: tail(b, rnd)[:len(b) + c.n(12, 30)])
    return c.finish()


def run2(c, behs, tail):
    """Index requests must lie inside the suite: its size is the product of the three
    lengths, which the behaviour's creation step determines (SuiteOf in the specification)."""
    sizes = {}

    def clip(b, rnd):
        out, lens, name = [], {}, {}
        for h in tail(b, rnd):
            if h["op"] == "suite":
                lens[h["s"]] = size(h)
                name[h["s"]] = h["name"]
                out.append(h)
            elif h["op"] == "GET?":
                nf, nd, ni = lens[h["s"]]
                if not nf:
                    continue
                tot = nf * nd * ni
                k = rnd.randrange(6)
                n = h["n"] % tot if rnd.random() < .7 else rnd.choice([0, tot - 1, rnd.randrange(tot)])
                if name[h["s"]] in HEAVY and k <= 2 and rnd.random() < .9:
                    n = n % (2 * nf * ni)
                if k <= 2:
                    out.append({"op": "get", "s": h["s"], "n": n})
                elif k == 3:
                    out.append({"op": "dec", "s": h["s"], "n": rnd.choice([n, n, tot - 1, tot, tot + 7])})
                elif k == 4:
                    out.append({"op": "enc", "s": h["s"], "af": rnd.randrange(nf), "ad": rnd.randrange(nd), "ai": rnd.randrange(ni)})
                else:
                    out.append({"op": rnd.choice(["fof", "dof", "iof"]), "s": h["s"], "n": 0})
                    o = out[-1]
                    o["n"] = rnd.randrange({"fof": nf, "dof": nd, "iof": ni}[o["op"]])
            else:
                out.append(h)
        return out
    run(c, behs, clip)


NFUN = {"toy": 6, "bbob": 24, "bbob-boxed": 24, "bbob-largescale": 24, "bbob-mixint": 24, "bbob-biobj": 55, "bbob-biobj-ext": 92,
        "bbob-biobj-mixint": 92, "bbob-constrained": 54, "bbob-noisy": 30}


def size(h):
    """Lengths (functions, dimensions, instances) to keep requests in range; a wrong value
    here could only make a request invalid, the expected answer comes from the specification."""
    n = h["name"]
    inst = [o for o in h["inst"] if o["k"] in ("year", "instances")][:1]
    if not inst:
        ni = 1 if n == "toy" else 15
    elif inst[0]["k"] == "year":
        ni = 10 if n.startswith("bbob-biobj") and inst[0]["y"] in (0, 2016) and n != "bbob-biobj-mixint" else 15
    else:
        ni = sum(r[1] - max(r[0], 1) + 1 for r in inst[0]["r"])
    return NFUN[n], 5 if n == "toy" else 6, ni
