"""Relations between problems (C23, C27): evaluations of a problem and of the problems it is made of."""
import math, random, re, shutil
import core

FACTOR = [1, 1e-3, 1e-1, 1e-1, 1, 1e-2, 1, 1e-2, 1e-2, 1e-3, 1e-2, 1e-4, 1e-1, 1, 1e-1, 1, 10, 1, 10, 1e-1, 1, 1, 10, 1e-1]
CARD = [2, 4, 8, 16, 0]
INST = {i: (2 * i + 1, 2 * i + 2) for i in range(3, 15)}
INST.update({1: (2, 4), 2: (3, 5), 9: (19, 21), 15: (31, 34)})
SEL = [1, 2, 6, 8, 13, 14, 15, 17, 20, 21]
_PAIRS = [(a, b) for n, a in enumerate(SEL) for b in SEL[n:]]
for g in ([1, 2, 3, 4, 5], [6, 7, 8, 9], [10, 11, 12, 13, 14], [15, 17, 18, 19], [20, 21, 22, 23, 24]):
    _PAIRS += [(a, b) for n, a in enumerate(g) for b in g[n + 1:] if not (a in SEL and b in SEL)]


def pair(f):
    return _PAIRS[f - 1]


def script(L, timeout=120):
    d = core.scratch() / ("re-%d" % random.Random().randrange(10**12))
    r = core.run_script(L, d, timeout=timeout)
    shutil.rmtree(d, ignore_errors=True)
    return r


def opening(key, slot):
    s, f, d, i = key
    return [["suite", slot, s, "instances: %d" % i if s != "toy" else "", "dimensions: %d" % d], ["getfdi", slot, f, d, i, slot]]


def batch(items, timeout=120):
    """items: list of (key, list of requests), a request being ("meta",), ("xopt",), ("eval", x) or ("cons", x); the answers, None where the process had ended"""
    L, at = [], []
    for n, (key, qs) in enumerate(items):
        L += opening(key, 1); at += [None, None]
        for m, q in enumerate(qs):
            L.append([q[0], 1] + ([repr(v) for v in q[1]] if len(q) > 1 else [])); at.append((n, m))
        L += [["pfree", 1], ["sfree", 1]]; at += [None, None]
    r = script(L, timeout)
    out = [[None] * len(qs) for _, qs in items]
    for e in r.events:
        if e["l"] <= len(at) and at[e["l"] - 1]:
            n, m = at[e["l"] - 1]
            out[n][m] = e
    return out, L


def fl(v):
    return [float(t) for t in v]


def close(a, bs, tol=1e-9):
    """is a the value bs[0], given the spread of the values around it"""
    if a == bs[0]:
        return 1
    if not all(map(math.isfinite, [a] + bs)):
        return 0
    spread = max(abs(b - bs[0]) for b in bs)
    return int(abs(a - bs[0]) <= 20 * spread + tol * (1 + abs(bs[0])))


def jitter(z, rnd):
    return [z, [v + rnd.uniform(-1, 1) * 1e-11 * (1 + abs(v)) for v in z], [v + rnd.uniform(-1, 1) * 1e-11 * (1 + abs(v)) for v in z]]


def inner_of(key):
    """the continuous problems of a mixed-integer problem"""
    s, f, d, i = key
    base = "bbob" if d < 50 else "bbob-largescale"
    if s == "bbob-mixint":
        return [(base, f, d, i)]
    (a, b), (p, q) = pair(f), INST[i]
    return [(base, a, d, p), (base, b, d, q)]


def place(k, xo, d):
    """(continuous place of the integer point k, the integer point of the optimum)"""
    z, ko = [], []
    for j in range(d):
        n = CARD[j * 5 // d]
        if not n:
            z.append(k[j]); continue
        st = 8 / (n + 1)
        o = min(max(math.floor((xo[j] + 4 - st) / st + 1e-7 + .5), 0), n - 1)
        ko.append(o)
        z.append(xo[j] + (k[j] - o) * st)
    return z, ko


def real(q):
    """thousandths; the outermost stand for values beyond every bound"""
    return q / 1000 if abs(q) < 2000000000 else math.copysign((3e9, 1e19, 1e300)[abs(q) % 3], q)


class Mix:
    """C23: problems of one of the mixed-integer suites with a behaviour each"""
    def __init__(self, keys, hists, seed):
        self.keys, self.hists, self.seed = keys, hists, seed

    def traces(self):
        rnd = random.Random(self.seed)
        plans, A, B = [], [], []
        inn = sorted({q for k in self.keys for q in inner_of(k)})
        xo, _ = batch([(q, [("xopt",)]) for q in inn])
        xo = {q: fl(a[0]["x"]) if a[0] else None for q, a in zip(inn, xo)}
        for key, hist in zip(self.keys, self.hists):
            s, f, d, i = key
            ni = 4 * d // 5
            conts = [[rnd.uniform(-5, 5) for _ in range(d - ni)] for _ in range(3)] + [[rnd.uniform(-9, 9) for _ in range(d - ni)]]
            grid, gi, evs = [], {}, []
            for h in hist:
                cands = [[]]
                for j, q in enumerate(h["x"]):
                    n = CARD[j * 5 // d]
                    r = math.floor((q + 500) / 1000)
                    ks = {min(max(r, 0), n - 1)} | ({min(max(r - 1, 0), n - 1)} if (q + 500) % 1000 == 0 else set())
                    cands = [c + [k] for c in cands for k in sorted(ks)]
                for c in cands:
                    if (tuple(c), h["c"]) not in gi:
                        gi[(tuple(c), h["c"])] = len(grid)
                        grid.append((c, h["c"]))
                evs.append(h)
            qs = [("meta",), ("xopt",)] + [("eval", [float(v) for v in c] + conts[o]) for c, o in grid] + [("eval", [real(v) for v in h["x"]] + conts[h["c"]]) for h in evs]
            A.append((key, qs))
            for q in inner_of(key):
                B.append((q, [("eval", z) for c, o in grid for z in jitter(place(c + conts[o], xo[q], d)[0], rnd)] if xo[q] else []))
            plans.append((grid, evs))
        ra, self.L = batch(A)
        rb, _ = batch(B)
        out, at = [], 0
        for n, key in enumerate(self.keys):
            s, f, d, i = key
            ni = 4 * d // 5
            ins = inner_of(key)
            ans, inner = ra[n], rb[at:at + len(ins)]
            at += len(ins)
            grid, evs = plans[n]
            tr = {"key": list(key), "d": d, "ev": []}
            out.append(tr)
            ids = {}
            if ans[0] is None or any(xo[q] is None for q in ins):
                tr["ev"].append({"op": "died"}); continue
            th = lambda v: round(v * 1000) if abs(v * 1000 - round(v * 1000)) < 1e-9 else -77777
            m = ans[0]
            fin = [th(v) if th(v) != -77777 or j < ni else math.floor(v * 1000) for j, v in enumerate(fl(m["init"]))]
            tr["ev"].append({"op": "open", "nint": m["nint"], "lo": [th(v) for v in fl(m["lo"])], "hi": [th(v) for v in fl(m["hi"])], "init": fin})
            if s == "bbob-mixint":
                x = fl(ans[1]["x"])
                tr["ev"].append({"op": "opt", "k": [round(v) if v == round(v) else -7 for v in x[:ni]], "want": place([0] * d, xo[ins[0]], d)[1]})
            fs = pair(f) if s != "bbob-mixint" else (f,)
            for g, (c, o) in enumerate(grid):
                e = ans[2 + g]
                if e is None:
                    tr["ev"].append({"op": "died"}); break
                y = tuple(e["y"])
                near = 1
                for t in range(len(ins)):
                    want = [FACTOR[fs[t] - 1] * float(a["y"][0]) if a else math.nan for a in inner[t][3 * g:3 * g + 3]]
                    near &= close(float(y[t]), want)
                tr["ev"].append({"op": "grid", "k": c, "c": o, "y": ids.setdefault(y, len(ids)), "near": near})
            else:
                for h, e in zip(evs, ans[2 + len(grid):]):
                    if e is None:
                        tr["ev"].append({"op": "died"}); break
                    tr["ev"].append({"op": "eval", "x": h["x"], "c": h["c"], "y": ids.setdefault(tuple(e["y"]), len(ids))})
        return out


class Ids:
    """identifiers of values, the same for values that agree up to rounding"""
    def __init__(self):
        self.v = []

    def of(self, a, tol=1e-10):
        if a is None or a != a:
            return -2
        for n, b in enumerate(self.v):
            if a == b or math.isfinite(a) and math.isfinite(b) and abs(a - b) <= tol * (1 + abs(b)):
                return n
        self.v.append(a)
        return len(self.v) - 1


def point(h, d, a, b, rnd, lim=5):
    c, t = h["cls"], h["t"] / 10
    if c == "opt1":
        return list(a)
    if c == "opt2":
        return list(b)
    if c == "between":
        return [u * t + v * (1 - t) for u, v in zip(a, b)]
    if c in ("near1", "near2"):
        return [u + rnd.gauss(0, 10 ** -(h["t"] % 5)) for u in (a if c == "near1" else b)]
    if c == "far":
        return [rnd.uniform(-40, 40) for _ in a]
    if c == "zero":
        return [0.0] * d
    if c == "edge":
        return [rnd.choice([-lim, lim, rnd.uniform(-lim, lim)]) for _ in a]
    if c == "out":
        x = [rnd.uniform(-lim, lim) for _ in a]
        x[rnd.randrange(d)] = rnd.choice([-1, 1]) * (lim + rnd.choice([1e-6, .5, 3]))
        return x
    return [rnd.uniform(-lim, lim) for _ in a]


class Bi:
    """bi-objective problems against the two they are named after"""
    def __init__(self, keys, hists, seed):
        self.keys, self.hists, self.seed = keys, hists, seed

    def traces(self):
        rnd = random.Random(self.seed)
        m, self.L = batch([(k, [("meta",)]) for k in self.keys], 300)
        info, base = [], set()
        for k, a in zip(self.keys, m):
            o = [tuple(map(int, t)) for t in re.findall(r"bbob_f(\d+)_i(\d+)_d(\d+)", a[0]["name"])] if a[0] else []
            suite = "bbob-largescale" if k[0] == "bbob-biobj-mixint" and k[2] >= 50 else "bbob"
            ks = [(suite, f, k[2], i) for f, i, _ in o] if len(o) == 2 and all(1 <= f <= 24 and i >= 1 for f, i, _ in o) else []
            info.append((o, ks)); base |= set(ks)
        base = sorted(base)
        xo, _ = batch([(q, [("xopt",)]) for q in base])
        xo = {q: fl(a[0]["x"]) if a[0] else None for q, a in zip(base, xo)}
        A, B = [], []
        for k, (o, ks), hist in zip(self.keys, info, self.hists):
            if not ks or k[0].endswith("mixint"):
                A.append((k, [])); B += [(k, [])] * 2; continue
            pts = [point(h, k[2], xo[ks[0]], xo[ks[1]], rnd) for h in hist]
            A.append((k, [("eval", x) for x in pts]))
            B += [(ks[0], [("eval", x) for x in pts + [xo[ks[1]]]]), (ks[1], [("eval", x) for x in pts + [xo[ks[0]]]])]
        ra, L = batch(A, 300)
        self.L += L
        rb, _ = batch(B)
        out = []
        for n, (k, a) in enumerate(zip(self.keys, m)):
            ids = Ids()
            tr = {"key": list(k), "inf": -1, "ev": []}
            out.append(tr)
            if not a[0]:
                tr["ev"].append({"op": "died"}); continue
            a = a[0]
            tr["ev"].append({"op": "open", "suite": k[0], "f": k[1], "d": k[2], "dim": a["dim"], "nobj": a["nobj"], "ncons": a["ncons"], "nint": a["nint"]})
            o, ks = info[n]
            tr["ev"].append({"op": "pair", "suite": k[0], "f": k[1], "d": k[2], "i": k[3], "o": [{"f": f, "i": i, "d": d} for f, i, d in o] if len(o) == 2 else [{"f": 0, "i": 0, "d": 0}] * 2})
            one, two = rb[2 * n], rb[2 * n + 1]
            for q, e in enumerate(ra[n]):
                if e is None or one[q] is None or two[q] is None:
                    tr["ev"].append({"op": "died"}); break
                tr["ev"].append({"op": "vals", "y": [ids.of(float(v)) for v in e["y"]], "w": [ids.of(float(one[q]["y"][0])), ids.of(float(two[q]["y"][0]))]})
            if ra[n] and one[-1] and two[-1]:
                tr["ev"].append({"op": "nadir", "y": [ids.of(v) for v in fl(a["hif"])], "w": [ids.of(float(one[-1]["y"][0])), ids.of(float(two[-1]["y"][0]))]})
        return out


class Box:
    """the boxed suite against bbob, and optimal values over dimensions and suites"""
    def __init__(self, keys, hists, seed):
        self.keys, self.hists, self.seed = keys, hists, seed

    def traces(self):
        rnd = random.Random(self.seed)
        pairs = [(("bbob",) + k, ("bbob-boxed",) + k) for k in self.keys]
        rel = [("bbob", d) for d in (2, 3, 5, 10, 20, 40)] + [("bbob-largescale", d) for d in (20, 40, 80)] + [("bbob-mixint", 10), ("bbob-mixint", 80), ("bbob-boxed", 5)]
        items = [(q, [("meta",), ("xopt",)]) for p in pairs for q in p]
        for f, d, i in self.keys:
            items += [((s, f, dd, i), [("meta",)]) for s, dd in rel]
        m, self.L = batch(items)
        np = 2 * len(pairs)
        A, plans = [], []
        for n, (f, d, i) in enumerate(self.keys):
            if not (m[2 * n][1] and m[2 * n + 1][1]):
                plans.append(None); A += [(pairs[n][0], []), (pairs[n][1], [])]; continue
            a, b = fl(m[2 * n][1]["x"]), fl(m[2 * n + 1][1]["x"])
            X, Z = [], []
            for h in self.hists[n]:
                z = point(h, d, b, b, rnd)
                x = [v - q + p for v, p, q in zip(z, a, b)]
                if all(abs(v) <= 5 for v in z) and any(abs(v) > 5 for v in x):
                    z = [min(max(v, -5 + q - p), 5 + q - p) * (1 - 1e-12) for v, p, q in zip(z, a, b)]
                    x = [v - q + p for v, p, q in zip(z, a, b)]
                    if any(abs(v) > 5 for v in x + z):
                        continue
                X.append(x); Z.append(z)
            plans.append((X, Z))
            A += [(pairs[n][0], [("eval", v) for x in X for v in jitter(x, rnd)]), (pairs[n][1], [("eval", z) for z in Z])]
        r, L = batch(A)
        self.L += L
        out = []
        for n, (f, d, i) in enumerate(self.keys):
            ids = Ids()
            tr = {"key": ["bbob-boxed", f, d, i], "inf": ids.of(math.inf), "ev": []}
            out.append(tr)
            if plans[n] is None:
                tr["ev"].append({"op": "died"}); continue
            for q, z in enumerate(plans[n][1]):
                e, w = r[2 * n + 1][q], r[2 * n][3 * q:3 * q + 3]
                if e is None or None in w:
                    tr["ev"].append({"op": "died"}); break
                y, ws = float(e["y"][0]), [float(t["y"][0]) for t in w]
                inside = int(all(abs(v) <= 5 for v in z))
                # the peaks of Gallagher's functions are placed differently
                if inside and f in (21, 22):
                    continue
                yi = ids.of(y)
                tr["ev"].append({"op": "boxed", "inside": inside, "y": yi, "w": yi if close(y, ws) else ids.of(ws[0])})
            for q, (s, dd) in enumerate(rel):
                e = m[np + n * len(rel) + q][0]
                if e is None:
                    tr["ev"].append({"op": "died"}); break
                tr["ev"].append({"op": "fopt", "s": s, "d": dd, "v": ids.of(float(e["fopt"]) / (FACTOR[f - 1] if s == "bbob-mixint" else 1))})
        return out


# ---- reference values
def ref_keys():
    from evaltr import NF, dims
    out = []
    for s in ("toy", "bbob", "bbob-boxed", "bbob-largescale", "bbob-mixint", "bbob-constrained", "bbob-noisy", "bbob-biobj-ext", "bbob-biobj", "bbob-biobj-mixint"):
        for f in range(1, NF[s] + 1):
            for d in dims(s):
                if (s in ("bbob-biobj", "bbob-biobj-mixint") and d not in (5, 20)) or (s == "bbob-biobj-ext" and f <= 55 and d not in (3, 10)):
                    continue
                rnd = random.Random("ref %s %d %d" % (s, f, d))
                for i in ([1] if s == "toy" else [1 + rnd.randrange(3), 4 + rnd.randrange(12)] if d <= 20 else [1 + rnd.randrange(15)]):
                    out.append((s, f, d, i))
    return out


def ref_points(key, x0):
    """two points in the box, two outside, and two near the place x0 of the optimum"""
    s, f, d, i = key
    rnd = random.Random("ref point %s %d %d %d" % key)
    isint = [bool("mixint" in s and CARD[j * 5 // d]) for j in range(d)]
    if "mixint" in s:
        out = [[round(rnd.uniform(0, CARD[j * 5 // d] - 1)) * 1.0 if isint[j] else round(rnd.uniform(-5, 5), 3) for j in range(d)] for _ in range(2)]
    else:
        out = [[round(rnd.uniform(-5, 5), 3) for _ in range(d)] for _ in range(2)]
    out.append([round(rnd.choice((-1, 1)) * rnd.uniform(5, 9), 3) if rnd.random() < .7 else rnd.uniform(-5, 5) for _ in range(d)])
    out.append([round(rnd.uniform(-99, 99), 2) for _ in range(d)])
    if x0:
        for e in (.1, .003):
            out.append([v if t else round(v + e * rnd.uniform(-1, 1), 6) for v, t in zip(x0, isint)])
    return out


def inner(k):
    return (k[0], k[1] + 100 * (k[0] == "bbob-noisy"), k[2], k[3])


def ref_optima(keys):
    """the places of the optima (single-objective), to four digits"""
    r, _ = batch([(inner(k), [] if "biobj" in k[0] else [("xopt",)]) for k in keys], 300)
    return [[round(v, 4) for v in fl(a[0]["x"])] if a else None for a in r]


def ref_values(keys, x0s):
    """for each problem the objective and constraint values at its points"""
    items = []
    for k, x0 in zip(keys, x0s):
        items.append((inner(k), [(op, x) for x in ref_points(k, x0) for op in (["eval", "cons"] if k[0] == "bbob-constrained" else ["eval"])]))
    r, L = batch(items, 300)
    return [[None if e is None else list(e["y"]) for e in a] for a in r], L


class Ref:
    def __init__(self, keys, want):
        self.keys, self.want = keys, want

    def traces(self):
        got, self.L = ref_values(self.keys, [w[0] for w in self.want])
        out = []
        for k, g, w in zip(self.keys, got, (w[1] for w in self.want)):
            tr = {"key": list(k), "inf": -1, "ev": []}
            out.append(tr)
            for a, b in zip(g, w):
                if a is None:
                    tr["ev"].append({"op": "died"}); break
                ids = Ids()
                tr["ev"].append({"op": "ref", "y": [ids.of(float(v), 1e-8) for v in a], "w": [ids.of(float(v), 1e-8) for v in b]})
        return out
