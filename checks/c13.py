"""C13: archives of solutions (coco_archive)."""
import random
import build, core

MC = "SPECIFICATION Spec\nCONSTANTS Grid=%d Micro=%d MaxAdd=%d Top=%d\nINVARIANTS Nondominated Hypervolume Inside EachOnce\nCHECK_DEADLOCK FALSE\n"
CFG = "SPECIFICATION TraceSpec\nCONSTANTS Grid=1000 Micro=10\nINVARIANT Conforms\nCHECK_DEADLOCK FALSE\n"
SUITES = {"bbob-biobj": (55, [2, 3, 5, 10, 20, 40]), "bbob-biobj-ext": (92, [2, 3, 5, 10, 20]), "bbob-biobj-mixint": (92, [5, 10, 20])}


def corners(prob):
    """ideal and nadir point, as the two extreme solutions show them"""
    r = core.run_script([["arch", 0, *prob], ["anext", 0], ["anext", 0], ["afree", 0]], core.scratch() / ("co-%d" % random.Random().randrange(10**12)))
    if r.rc:
        return None
    t1, t2 = r.events[1]["v"].split("\t"), r.events[2]["v"].split("\t")
    return [float(t2[1]), float(t1[2])], [float(t1[1]), float(t2[2])]


class Job:
    def __init__(self, beh, rnd):
        self.beh = beh
        while True:
            s = rnd.choice(list(SUITES))
            nf, dims = SUITES[s]
            self.prob = (s, rnd.randint(1, nf), rnd.choice(dims), rnd.randint(1, 15))
            co = corners(self.prob)
            if co is None:
                break
            self.lo, self.hi = co
            # the corners are known to 16 digits: keep problems where that is far below the resolution of the archive
            if all(abs(l) * 1e-15 < 5e-14 * (h - l) and abs(h) * 1e-15 < 5e-14 * (h - l) for l, h in zip(*co)):
                break
        self.co = co
        self.rnd = rnd

    def y(self, k, o):
        lo, hi = self.lo[o], self.hi[o]
        if k == 0:
            return lo - (hi - lo) * (1e-9 if o else 1e-3)
        # k = 10 * (thousandths) + steps of 1e-11
        t = (k // 10) / 1000 + (k % 10) * 1e-11
        return lo + (hi - lo) * t

    def trace(self):
        if self.co is None:
            return {"ev": [{"op": "died", "problem": self.prob}]}
        L, ask = [["arch", 0, *self.prob]], [None]
        for n, h in enumerate(self.beh):
            if h["op"] == "add":
                L.append(["aadd", 0, repr(self.y(h["a"], 0)), repr(self.y(h["b"], 1)), "id%d" % (n + 1)])
                ask.append({"op": "add", "a": h["a"], "b": h["b"], "id": n + 1})
            elif h["op"] == "next":
                for _ in range(h["n"]):
                    L.append(["anext", 0]); ask.append({"op": "next"})
            else:
                L.append([{"num": "anum", "hv": "ahv"}[h["op"]], 0]); ask.append({"op": h["op"]})
        L.append(["afree", 0]); ask.append(None)
        self.L = L
        r = core.run_script(L, core.scratch() / ("ar-%d" % random.Random().randrange(10**12)))
        ev = []
        for e in r.events:
            a = ask[e["l"] - 1]
            if a is None:
                continue
            a = dict(a)
            if a["op"] == "add":
                a["r"] = e["r"]
            elif a["op"] == "num":
                a["v"] = e["v"]
            elif a["op"] == "hv":
                v = float(e["v"]) * 1e6
                a["v"] = round(v) if abs(v - round(v)) < 1e-3 else -1
            else:
                t = e["v"]
                x = t.split("\t") if t else []
                if t == "":
                    a["v"] = 0
                elif t and t.startswith("id"):
                    a["v"] = int(t[2:])
                elif len(x) == 3 and x[0] == "0" and t.endswith("\n"):
                    a["v"] = -1 if (float(x[1]), float(x[2])) == (self.hi[0], self.lo[1]) else -2 if (float(x[1]), float(x[2])) == (self.lo[0], self.hi[1]) else -9
                else:
                    a["v"] = -9
            ev.append(a)
        if len(r.events) < len(L):
            ev.append({"op": "died", "rc": r.rc})
        return {"ev": ev}


def main():
    c = core.Check("C13", assumptions=["hypervolumes compared at a resolution of 1e-6 of the region of interest (double arithmetic of the grid points is exact far beyond that)"])
    build.driver()
    c.model("ArchiveMC", MC % (3, 1, c.n(3, 4), 4), workers=8)
    c.model("ArchiveMC", MC.replace("Hypervolume ", "") % (2, 2, 3, 5), workers=8)
    depth = c.n(70, 150)
    behs, r = core.behaviours("ArchiveGen", "SPECIFICATION Spec\nCONSTANTS Depth=%d\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % depth, c.n(260, 3000), depth + 1, core.SEED + 13)
    c.states += r.distinct; c.transitions += r.generated
    jobs = core.pmap(lambda kb: Job(kb[1], random.Random("%d/%d/C13" % (core.SEED, kb[0]))), list(enumerate(behs)))
    traces = core.pmap(lambda j: j.trace(), jobs)
    c.sample({"problem": jobs[0].prob, "ev": traces[0]["ev"][:12]})
    c.conform("ArchiveTrace", traces, remake=lambda q: jobs[q].trace(), cfg=CFG, describe=lambda q: {"problem": jobs[q].prob, "script": jobs[q].L}, chunk=60)
    return c.finish()
