"""C22: what problems announce, and values at points placed relative to the optimum."""
import math, random, shutil
import core
from evaltr import NF, dims

BOX = {"bbob": (-5, 5), "bbob-boxed": (-5, 5), "bbob-largescale": (-5, 5), "bbob-constrained": (-5, 5), "toy": (-5, 5), "bbob-noisy": (-5, 5)}
CARD = [2, 4, 8, 16, 0]


def box(s, d):
    if s == "bbob-mixint":
        return [(0, CARD[j * 5 // d] - 1) if CARD[j * 5 // d] else (-5, 5) for j in range(d)]
    return [BOX[s]] * d


def tol(fopt, big):
    return 1e-11 * max(1, abs(fopt)) + 1e-13 * big


class Group:
    """several problems of one suite, evaluated by one process (after one that only reads what is announced)"""
    def __init__(self, keys, hists, seed):
        self.keys, self.hists, self.seed = keys, hists, seed

    def run(self, L):
        d = core.scratch() / ("op-%d" % random.Random().randrange(10**12))
        r = core.run_script(L, d)
        shutil.rmtree(d, ignore_errors=True)
        return r

    def traces(self, only=None):
        rnd = random.Random(self.seed)
        L = []
        for s, f, d, i in self.keys:
            L += [["suite", 1, s, "instances: %d" % i if s != "toy" else "", "dimensions: %d" % d], ["getfdi", 1, f + 100 * (s == "bbob-noisy"), d, i, 1], ["meta", 1], ["xopt", 1], ["pfree", 1], ["sfree", 1]]
        r = self.run(L)
        meta = [e for e in r.events if e["op"] == "meta"]
        xo = [e for e in r.events if e["op"] == "xopt"]
        L, plan = [], []
        for n, key in enumerate(self.keys):
            s, f, d, i = key
            if n >= len(xo):
                break
            m, x0 = meta[n], [float(v) for v in xo[n]["x"]]
            L += [["suite", 1, s, "instances: %d" % i if s != "toy" else "", "dimensions: %d" % d], ["getfdi", 1, f + 100 * (s == "bbob-noisy"), d, i, 1]]
            plan += [None, None]
            for h in [{"cls": "init0"}] + self.hists[n]:
                x = self.point(h, x0, m, d, rnd, s)
                if m["ncons"]:
                    L.append(["cons", 1] + [repr(v) for v in x]); plan.append(("cons", n, h))
                if h["cls"] != "init0":
                    L.append(["eval", 1] + [repr(v) for v in x]); plan.append(("eval", n, h))
            L += [["pfree", 1], ["sfree", 1]]; plan += [None, None]
        self.L = L
        r2 = self.run(L)
        out = []
        died = r.rc or r2.rc or len(r2.events) < len(L)
        for n, key in enumerate(self.keys):
            if n >= len(xo):
                out.append({"key": list(key), "worst": 0, "ev": [{"op": "died"}]})
                continue
            out.append(self.trace(n, key, meta[n], xo[n], [(plan[e["l"] - 1], e) for e in r2.events if plan[e["l"] - 1] and plan[e["l"] - 1][1] == n], died))
        return out

    def point(self, h, x0, m, d, rnd, s):
        c, t = h["cls"], h.get("s", 1) * 10.0 ** -h.get("e", 0)
        lo, hi = [float(v) for v in m["lo"]], [float(v) for v in m["hi"]]
        if c == "opt":
            return list(x0)
        if c in ("init", "init0"):
            return [float(v) for v in m["init"]]
        if c == "axis":
            x = list(x0); x[h["j"] * d // 10] += t; return x
        if c == "all":
            g = [rnd.gauss(0, 1) for _ in x0]
            q = math.sqrt(sum(v * v for v in g))
            return [a + abs(t) * v / q for a, v in zip(x0, g)]
        if c == "sign":
            return [a + t * rnd.choice([-1, 0, 1]) for a in x0]
        if c == "half":
            return [(a + rnd.uniform(l, u)) / 2 for a, l, u in zip(x0, lo, hi)]
        if c == "corner":
            return [rnd.choice([l, u]) for l, u in zip(lo, hi)]
        if c == "centre":
            return [(l + u) / 2 for l, u in zip(lo, hi)]
        if c == "far":
            return [a + rnd.uniform(-3, 3) * (u - l) for a, l, u in zip(x0, lo, hi)] if s != "bbob-boxed" or rnd.random() < .5 else [l for l in lo]
        if c == "bound":
            x = list(x0); j = rnd.randrange(d); x[j] = rnd.choice([lo[j], hi[j]]); return x
        if c == "mirror":
            return [l + u - a for a, l, u in zip(x0, lo, hi)]
        return [rnd.uniform(l, u) for l, u in zip(lo, hi)]

    def trace(self, n, key, m, xo, evs, died):
        s, f, d, i = key
        lo, hi, ini, x0 = ([float(v) for v in w] for w in (m["lo"], m["hi"], m["init"], xo["x"]))
        fopt, tgt = float(m["fopt"]), float(m["target"])
        ni = m.get("nint", 0)
        vals, feas, pts = [], 1, []
        ifeas = 1
        for (k, _, h), e in evs:
            if k == "cons":
                feas = int(all(float(v) <= 0 for v in e["y"]))
                if h["cls"] == "init0":
                    ifeas = feas
                continue
            y = float(e["y"][0])
            if math.isfinite(fopt) and y < fopt and fopt - y <= tol(fopt, 0):
                yy = fopt
            else:
                yy = y
            pts.append(("noisy" if s == "bbob-noisy" else h["cls"], feas, y, yy, e["hit"], abs(y - fopt) <= tol(fopt, 0)))
            feas = 1
        allv = sorted({v for v in [fopt, tgt] + [p[3] for p in pts] if v == v})
        rk = {v: q for q, v in enumerate(allv)}
        worst = len(allv) + 1
        isint = lambda x: int(all(v == int(v) for v in x[:ni])) if all(map(math.isfinite, x)) else 0
        ev = [{"op": "open", "fopt": rk.get(fopt, -1), "tgt": rk.get(tgt, -1), "box": int([(a, b) for a, b in zip(lo, hi)] == [tuple(map(float, b)) for b in box(s, d)]),
               "xin": int(all(a <= v <= b for a, v, b in zip(lo, x0, hi))), "initin": int(all(a <= v <= b for a, v, b in zip(lo, ini, hi))),
               "initfeas": ifeas, "intok": isint(x0) & isint(ini), "fin": int(all(map(math.isfinite, x0 + [fopt, tgt])) and xo["r"] == 1),
               "gap": int(abs(tgt - fopt - 1e-8) <= 4e-16 * max(1, abs(fopt)))}]
        for c, fe, y, yy, hit, ex in pts:
            ev.append({"op": "eval", "cls": c, "feas": fe, "y": rk.get(yy, worst), "hit": hit, "near": int(ex), "v": repr(y), "d": repr(y - fopt)})
        if died and not evs:
            ev.append({"op": "died"})
        return {"key": list(key), "worst": worst, "ev": ev}
