"""Bi-objective logger traces (C11, C12): solutions on a grid fed into the logger, and evaluated runs."""
import math, random, re, shutil
from fractions import Fraction as F
import build, core
from bbobtr import Opt as BOpt

SUITES = {"bbob-biobj": (55, [2, 3, 5, 10, 20]), "bbob-biobj-ext": (92, [2, 3, 5, 10]), "bbob-biobj-mixint": (92, [5, 10])}
ZERO = -999999999
_ref = None


def reference(pid):
    """best known hypervolume of a problem: the table in the sources, 1 when it is not there"""
    global _ref
    if _ref is None:
        _ref = {}
        for f in sorted((build.REPO / "src").glob("*best_values_hyp.c")):
            if "mixint" not in f.name:
                _ref.update((k, float(v)) for k, v in re.findall(r'"(\S+) (\S+)"', f.read_text()))
    return _ref.get(pid, 1.0)


class Opt(BOpt):
    def __init__(self, rnd, mode, ind=1):
        super().__init__(rnd, True)
        self.mode, self.ind = mode, ind
        o = []
        if mode != "all" or rnd.random() < .5:
            o.append("log_nondominated: " + mode)
        if not ind:
            o.append("compute_indicators: 0")
        self.vars = rnd.choice(["low_dim", "low_dim", "all", "none"])
        if self.vars != "low_dim":
            o.append("log_decision_variables: " + self.vars)
        self.px = 8
        if rnd.random() < .3:
            self.px = rnd.choice([3, 12]); o.append("precision_x: %d" % self.px)
        if mode == "read" and self.lin < 1 and rnd.random() < .85:
            # off the grid's own multiples
            t = "0.00001337" if self.lin < 1e-3 else "0.01337"
            self.text = re.sub(r"lin_target_precision: \S+", "", self.text) + " lin_target_precision: " + t
            self.lin = float(t)
        self.text += " " + " ".join(o)

    def logs(self, d):
        return self.vars == "all" or (self.vars == "low_dim" and d <= 5)

    def reach(self, v, known=True):
        """(rank of the log target, linear target, target written, clear of rounding)"""
        if not known:
            li = math.ceil(v / self.lin) * self.lin
            return 0, li, li, abs(v - round(v / self.lin) * self.lin) > max(3e-12, abs(v) * 1e-14)
        if v >= 0:
            le, li, clear, clin = self.targets(v)
            clear |= v == 1.0
            lv = math.inf
            if self.nt:
                lv = 0.0 if v == 0 else 10.0 ** (le / self.nt)
        else:
            _, li, clear, clin = 0, math.ceil(v / self.lin) * self.lin, True, abs(v - round(v / self.lin) * self.lin) > max(3e-12, abs(v) * 1e-14)
            le, lv = 0, math.inf
            if self.nt:
                q = math.log10(max(-v, self.lp)) * self.nt
                cur = math.floor(q)
                clear = abs(q - round(q)) > 1e-9 or -v < self.lp
                le = 2 * math.ceil(math.log10(self.lp / 10) * self.nt) - cur - 1
                lv = -10.0 ** (cur / self.nt)
        return le, li, min(li, lv), clear and clin


class Arch:
    """the oracle's own archive over exact numbers"""
    def __init__(self):
        self.p = []

    def add(self, a, b, ev):
        if any(x <= a and y <= b for x, y, _ in self.p):
            return False
        self.p = [t for t in self.p if not (a <= t[0] and b <= t[1])] + [(a, b, ev)]
        return True

    def value(self):
        """hypervolume (positive) or minus the squared distance"""
        P = sorted((t for t in self.p if t[0] <= 1 and t[1] <= 1), key=lambda t: t[1])
        left, h = F(1), F(0)
        for a, b, _ in P:
            h += (left - a) * (1 - b); left = a
        if h > 0:
            return h
        return -min(max(a - 1, 0) ** 2 + max(b - 1, 0) ** 2 for a, b, _ in self.p)


def norm(a, b):
    a, b = max(a, 0), max(b, 0)
    if a == 0:
        return a, max(b, F(1))
    if b == 0:
        return max(a, F(1)), b
    return a, b


def overall(best, val):
    return best - float(val) if val > 0 else best + math.sqrt(float(-val))


_corner = {}


def corners(key):
    if key not in _corner:
        from c13 import corners as c
        _corner[key] = c(key)
    return _corner[key]


_pool = {}


def pool(key):
    """points of a problem from far away to near the front, found by a small search on the unobserved problem"""
    if key in _pool:
        return _pool[key]
    s, f, d, i = key
    rnd = random.Random(repr(key))
    lo, hi = corners(key)
    pts = [[rnd.uniform(-5, 5) for _ in range(d)] for _ in range(60)]
    known = []
    for rd in range(5):
        L = [["suite", 0, s, "instances: %d" % i, "dimensions: %d" % d], ["getfdi", 0, f, d, i, 0]] + [["eval", 0] + [repr(v) for v in x] for x in pts]
        r = core.run_script(L, core.scratch() / ("po-%d" % random.Random().randrange(10**12)))
        for e, x in zip(r.events[2:], pts):
            y = [float(v) for v in e["y"]]
            known.append((((y[0] - lo[0]) / (hi[0] - lo[0]), (y[1] - lo[1]) / (hi[1] - lo[1])), x))
        pts = []
        sg = [2, 1, .4, .1, .03][rd]
        for w in (0, .1, .3, .5, .7, .9, 1):
            best = sorted(known, key=lambda t: max(w * t[0][0], (1 - w) * t[0][1]))[:2]
            for _ in range(8):
                b = rnd.choice(best)[1]
                pts.append([v + (rnd.gauss(0, sg) if rnd.random() < .6 else 0) for v in b])
        # between the ends
        e1, e2 = min(known, key=lambda t: t[0][0])[1], min(known, key=lambda t: t[0][1])[1]
        for q in range(8):
            t = rnd.random()
            pts.append([u * t + v * (1 - t) for u, v in zip(e1, e2)])
    a = Arch()
    for n, (y, x) in enumerate(known):
        a.add(y[0], y[1], n)
    front = [known[t[2]][1] for t in sorted(a.p)]
    near = [x for y, x in sorted(known, key=lambda t: max(t[0]))[:80]]
    _pool[key] = (front, near, [x for _, x in known[:60]])
    return _pool[key]


class Job:
    """kind: feed (grid, log_nondominated: read), run (evaluations), refeed (a run whose archive is fed afterwards)"""
    def __init__(self, hist, rnd, kind):
        self.rnd, self.hist, self.kind, self.skip, self.fed = rnd, hist, kind, None, None
        while True:
            su = rnd.choice(["bbob-biobj", "bbob-biobj", "bbob-biobj-ext", "bbob-biobj-mixint"])
            nf, dims = SUITES[su]
            # the step ellipsoid (f7) has plateaus: solutions that agree in one objective
            self.plat = kind == "run" and su == "bbob-biobj-ext" and rnd.random() < .7
            self.fun, self.dims, self.insts = rnd.sample([65, 67, 68] if self.plat else range(1, nf + 1), 2), rnd.sample(dims, 2), rnd.sample(range(1, 16), 3)
            keys = {self.key(su, h["key"]) for h in hist if h["op"] == "open"}
            co = {k: corners(k) for k in keys}
            if any(c is None for c in co.values()):
                break
            if all(abs(v) * 1e-15 < 5e-14 * (h - l) for c in co.values() for l, h in zip(*c) for v in (l, h)):
                break
        self.su, self.co = su, co
        self.opt = {o: Opt(rnd, "read" if kind == "feed" else rnd.choice(["all", "all", "final", "none"]), 1) for o in (0, 1)}
        if kind == "run" and rnd.random() < .15:
            self.opt[1] = Opt(rnd, rnd.choice(["all", "final"]), 0)
        if any(c is None for c in co.values()):
            return
        self.build()

    def key(self, su, k):
        return (su, self.fun[k[0] - 1], self.dims[k[1] - 1], self.insts[k[2] - 1])

    def y(self, key, k, o):
        (lo, hi) = (self.co[key][0][o], self.co[key][1][o])
        if k == 0:
            return lo - (hi - lo) * (1e-9 if o else 1e-3)
        return lo + (hi - lo) * ((k // 10) / 1000 + (k % 10) * 1e-11)

    def x(self, key, h):
        front, near, far = pool(key)
        rnd = self.rnd
        if self.plat and h["cls"] in ("near", "front") and self.lastx.get(key) and rnd.random() < .6:
            h = {"cls": "again"}
        if h["cls"] == "front":
            v = front[min(len(front) - 1, h["t"] * len(front) // 21)]
            return v if rnd.random() < .5 else [t + rnd.gauss(0, .01) for t in v]
        if h["cls"] == "near":
            return rnd.choice(near)
        if h["cls"] == "again" and self.lastx.get(key):
            v = rnd.choice(self.lastx[key][-4:] if self.plat else self.lastx[key])
            return [t + rnd.gauss(0, .15) * (rnd.random() < .5) for t in v] if self.plat else v
        return rnd.choice(far) if rnd.random() < .5 else [t * rnd.uniform(1, 6) for t in rnd.choice(far)]

    def build(self):
        L, ask = [], []
        self.lastx = {}
        for o in (0, 1):
            L.append(["obs", o, "bbob-biobj", "result_folder: R%d %s" % (o, self.opt[o].text)]); ask.append({"op": "obs", "o": o})
        shadow, cur, n, ns = {}, {}, {}, 2
        for h in self.hist:
            op, p = h["op"], h["p"]
            if op == "open":
                key = self.key(self.su, h["key"])
                if key not in shadow and self.kind == "run":
                    sl = 20 + len(shadow); shadow[key] = sl
                    L.append(["suite", sl, key[0], "instances: %d" % key[3], "dimensions: %d" % key[2]]); ask.append(None)
                    L.append(["getfdi", sl, *key[1:], sl]); ask.append(None)
                ns = 2 + (ns - 1) % 17
                L.append(["suite", ns, key[0], "instances: %d" % key[3], "dimensions: %d" % key[2]]); ask.append(None)
                L.append(["getfdi", ns, *key[1:], p]); ask.append({"op": "open", "p": p, "key": key})
                cur[p] = key
                if h["o"] >= 0:
                    L.append(["add", p, h["o"]]); ask.append({"op": "add", "p": p, "o": h["o"], "key": key}); n[p] = 0
            elif op == "add":
                L.append(["add", p, h["o"]]); ask.append({"op": "add", "p": p, "o": h["o"], "key": cur[p]}); n[p] = 0
            elif op == "rem":
                L.append(["rem", p, h["o"]]); ask.append({"op": "release", "p": p})
            elif op == "free":
                L.append(["pfree", p]); ask.append({"op": "release", "p": p}); cur.pop(p)
            elif op == "restart":
                L.append(["restart", h["o"], p]); ask.append({"op": "restart", "p": p})
            elif op == "feed":
                key = cur[p]
                n[p] += h["gap"]
                L.append(["feed", p, n[p], repr(self.y(key, h["a"], 0)), repr(self.y(key, h["b"], 1))])
                ask.append({"op": "feed", "p": p, "n": n[p], "a": h["a"], "b": h["b"], "key": key})
            elif op in ("eval", "rec"):
                key = cur[p]
                x = [repr(v) for v in self.x(key, h)]
                self.lastx.setdefault(key, []).append([float(v) for v in x])
                L.append(["eval", shadow[key]] + x); ask.append({"op": "y"})
                L.append([op, p] + x); ask.append({"op": op, "p": p, "x": x, "key": key})
        for p in sorted(cur):
            L.append(["pfree", p]); ask.append({"op": "release", "p": p})
        for o in (0, 1):
            L.append(["ofree", o]); ask.append(None)
        self.L, self.ask = L, ask

    def trace(self, cut=None, at=None):
        """cut: number of lines after which the process dies; at: output call before which it dies."""
        if any(c is None for c in self.co.values()):
            self.L = ["no archive"]
            return {"lat": True, "ev": [{"op": "died"}]}
        d = core.scratch() / ("bi-%d" % random.Random().randrange(10**12))
        if at is None:
            r = core.run_script(self.L if cut is None else self.L[:cut] + [["die"]], d)
        else:
            import build
            r = core.run_script(self.L, d, san=build.crasher(), env={"CRASH_AT": str(at), "CRASH_COUNT": "count"})
            f = d / "count"
            self.count = int(f.read_text()) if f.exists() else None
        tr = self.events(r, d, cut, at is not None and r.rc == 77)
        shutil.rmtree(d, ignore_errors=True)
        return tr

    def events(self, r, d, cut=None, inside=False):
        lat = self.kind == "feed"
        under, todo = {"op": "none"}, [e for e in r.events if e["op"] != "die"]
        if inside:   # the command under way when the process died: its effect may be there in part
            todo.append({"l": len(todo) + 1, "op": "?", "r": -1})
        ev, names, at, y = [], {}, {}, None
        ses, blocks, ranks = [], {}, set()
        for e in todo:
            a = self.ask[e["l"] - 1] if e["l"] - 1 < len(self.ask) else None
            if a is None:
                continue
            op = a["op"]
            e["mark"] = len(ev)
            if e["op"] == "?" and op not in ("add", "release", "restart", "eval", "feed", "rec"):
                continue
            if op == "obs":
                q = self.opt[a["o"]]
                ev.append({"op": "obs", "o": a["o"], "alg": q.alg, "mode": q.mode, "ind": q.ind, "base": q.base})
            elif op == "open":
                names[a["p"]] = (e["id"], e["name"])
                at.pop(a["p"], 0)
            elif op == "add":
                k, (pid, name) = a["key"], names[a["p"]]
                pre = re.sub(r"_i\d+_d", "_d", pid)
                ev.append({"op": "add", "p": a["p"], "o": a["o"], "key": {"suite": k[0], "f": k[1], "d": k[2], "inst": k[3], "id": pid,
                           "pre": pre, "name": name, "type": self.type_of(d, pid)}})
                s = {"o": a["o"], "arch": Arch(), "n": 0, "best": reference(pid), "key": ev[-1]["key"], "sol": [], "i": k[3], "k": k}
                at[a["p"]] = s
                ses.append(s); blocks.setdefault((a["o"], pre), []).append(s)
            elif op == "release":
                if a["p"] in at:
                    ev.append({"op": "release", "p": a["p"]})
                    del at[a["p"]]
            elif op == "restart":
                ev.append({"op": "restart", "p": a["p"]})
            elif op == "y":
                y = [float(v) for v in e["y"]]
            elif op in ("eval", "feed", "rec"):
                if a["p"] not in at:
                    continue
                s = at[a["p"]]
                q, key = self.opt[s["o"]], a["key"]
                row = ""
                if op != "feed":
                    row = "\t".join("%.15e" % v for v in y) + "\t"
                    if q.logs(key[2]):
                        row += "".join("%.*e\t" % (q.px, float(v)) for v in a["x"])
                if op == "rec":
                    ev.append({"op": "rec", "p": a["p"], "row": row})
                    continue
                rec = {"op": op, "p": a["p"], "row": row}
                if lat:
                    s["n"] = a["n"]
                    na, nb = norm(*(F(t // 10, 1000) + F(t % 10, 10**11) for t in (a["a"], a["b"])))
                    rec["a"], rec["b"] = a["a"], a["b"]
                else:
                    s["n"] = a.get("n", s["n"] + 1)
                    if op == "feed":
                        y = a["y"]
                    lo, hi = self.co[key]
                    raw = [(F(y[t]) - F(lo[t])) / (F(hi[t]) - F(lo[t])) for t in (0, 1)]
                    na, nb = norm(*raw)
                    if any(abs(t) < F(1, 10**11) or abs(t - 1) < F(1, 10**11) for t in raw):
                        self.skip = "corner"
                    rec["a"], rec["b"] = na, nb
                    ranks |= {na, nb}
                rec["n"] = s["n"]
                s["arch"].add(na, nb, s["n"])
                rec["_v"] = overall(s["best"], s["arch"].value())
                if lat:
                    rec["_t"] = self.lattoken(s["arch"])
                else:
                    rec["arch"] = sorted(t[2] for t in s["arch"].p)
                if op == "feed":
                    rec["r"] = e["r"]
                s["sol"].append(rec)
                ev.append(rec)
        # ranks of the coordinates; values too close to tell apart make the trace useless
        rk = {}
        if not lat:
            last, n = None, 0
            for v in sorted(ranks):
                if last is not None and v - last < F(3, 10**12):
                    self.skip = "close"
                n += 1; rk[v] = n; last = v
        for s in ses:
            q = self.opt[s["o"]]
            s["tok"], s["tv"], tab, last, n = {}, [], {}, None, 0
            for rec in sorted(s["sol"], key=lambda t: -t["_v"]):
                v = rec["_v"]
                if lat:
                    tok = rec["_t"]
                else:
                    if last is None or abs(v - last) > 1e-10 * max(1, abs(v)):
                        n += 1
                    last, tok = v, n
                s["tok"][tok] = v
                rec["_t"] = tok
                if tok in tab:
                    continue
                le, li, tv, clear = q.reach(v, s["k"][0] != "bbob-biobj-mixint")
                txt = {"%.1e" % (v + z) for z in (0, 1e-10 * max(1, abs(v)), -1e-10 * max(1, abs(v)))}
                if not clear or (len(txt) > 1 and rec is s["sol"][-1]):
                    self.skip = "boundary"
                same = [k for k, t in enumerate(s["tv"]) if abs(t - tv) <= 1e-9 * max(1, abs(tv)) or t == tv]
                if not same:
                    s["tv"].append(tv)
                tab[tok] = {"tok": tok, "le": le, "li": li, "tv": (same or [len(s["tv"]) - 1])[0] + 1, "s": "%.1e" % v}
            lis = {v: k for k, v in enumerate(sorted({t["li"] for t in tab.values()}))}
            for t in tab.values():
                t["li"] = lis[t["li"]]
            s["key"]["tab"] = list(tab.values())
            for rec in s["sol"]:
                if not lat:
                    rec["w"], rec["a"], rec["b"] = rec["_t"], rk[rec["a"]], rk[rec["b"]]
        for rec in ev:
            rec.pop("_v", 0); rec.pop("_t", 0)
        if inside:
            if todo[-1].get("mark", len(ev)) < len(ev):
                under = ev.pop()
            ev.append({"op": "within", "e": under, **self.read(d, blocks)})
        elif cut is not None and len(r.events) >= cut:
            ev.append({"op": "crash", **self.read(d, blocks)})
        elif len(r.events) < len(self.L):
            ev.append({"op": "died", "rc": r.rc, "stderr": r.stderr[-300:], "at": str(r.partial)[:200]})
        else:
            ev.append({"op": "disk", **self.read(d, blocks)})
        return {"lat": lat, "ev": ev}

    def read(self, d, blocks):
        files, infos = [], []
        for o in (0, 1):
            root = d / "exdata" / ("R%d" % o)
            for f in sorted(root.rglob("*")):
                if not f.is_file():
                    continue
                t = f.read_text(errors="replace")
                kind = f.suffix[1:]
                if kind == "info":
                    infos.append({"o": o, "type": f.name[:-len("_hyp.info")], "lines": info(t)})
                    continue
                name = f.stem
                rows = [["unterminated"]] if t and not t.endswith("\n") else []
                ls = t.split("\n")[:-1]
                if kind == "adat":
                    name = name.replace("_nondom_", "_")
                elif kind in ("dat", "tdat", "rdat"):
                    name = name[:-4] if name.endswith("_hyp") else "?" + name
                bl, b, s = blocks.get((o, name), []), -1, None
                k = 0
                while k < len(ls):
                    l = ls[k]
                    if kind in ("adat", "mdat") and l.startswith("% instance"):
                        m = re.fullmatch(r"% instance = (\d+), name = (\S+)", l)
                        m2 = k + 1 < len(ls) and re.fullmatch(r"% function evaluation \| 2 objectives( \| (\d+) variables| ?)", ls[k + 1])
                        rows.append(["H", m[1], m[2]] if m and m2 else ["?", l])
                        k += 2
                        continue
                    if kind in ("dat", "tdat", "rdat") and l == "%":
                        m = k + 3 < len(ls) and re.fullmatch(r"% index = \d+, name = (\S+)\n% instance = (\d+), reference value = (\S+)\n% function evaluation \| indicator value( \| target hit)?", "\n".join(ls[k + 1:k + 4]))
                        b += 1
                        s = bl[b] if b < len(bl) else None
                        ok = m and s and "%.15e" % s["best"] == m[3] and (kind == "dat") == bool(m[4])
                        rows.append(["H", m[2], m[1] if ok else "reference value or columns differ"] if m else ["?", l])
                        k += 4
                        continue
                    if kind == "adat" and (m := re.fullmatch(r"% evaluations = (\d+)", l)):
                        rows.append(["F", m[1]])
                    elif kind in ("adat", "mdat"):
                        x = l.split("\t", 1)
                        rows.append([x[0], x[1] if len(x) > 1 else ""])
                    else:
                        x = l.split("\t")
                        if s is None or len(x) != (3 if kind == "dat" else 2):
                            rows.append(["?", l])
                        else:
                            rows.append([x[0], self.token(s, float(x[1]))] + ([self.target(s, float(x[2]))] if kind == "dat" else []))
                    k += 1
                files.append({"o": o, "kind": kind, "name": name, "rows": rows})
        return {"files": files, "info": infos}

    def token(self, s, v):
        if v == 0.0:
            return ZERO
        if not s["tok"]:
            return -3
        t = min(s["tok"], key=lambda k: abs(s["tok"][k] - v))
        if abs(s["tok"][t] - v) <= 1e-9 * max(1, abs(v)):
            return t
        if self.kind == "feed":
            h = (s["best"] - v) * 1e6
            if h > .5 and abs(h - round(h)) < 1e-2:
                return round(h)
        return -888888888

    def target(self, s, v):
        if v > 1e300:
            return -1
        for k, t in enumerate(s["tv"]):
            if abs(t - v) <= 1e-9 * max(1, abs(v)):
                return k + 1
        return -2

    def lattoken(self, arch):
        P = sorted((t for t in arch.p if t[0] <= 1 and t[1] <= 1), key=lambda t: t[1])
        k = lambda t: int(t * 1000)
        left, h = 1000, 0
        for a, b, _ in P:
            h += (left - k(a)) * (1000 - k(b)); left = k(a)
        if h > 0:
            return h
        return -min(max(k(a) - 1000, 0) ** 2 + max(k(b) - 1000, 0) ** 2 for a, b, _ in arch.p)

    def type_of(self, d, pid):
        pre = re.sub(r"_i\d+_d", "_d", pid)
        for o in (0, 1):
            for f in (d / "exdata" / ("R%d" % o)).glob("*/%s*.mdat" % pre):
                return f.parent.name
        return "?"


class Refeed:
    """a run with its archive logged, and a second one the archive is fed into"""
    def __init__(self, seed):
        rnd = self.rnd = random.Random("refeed-%s" % seed)
        su = rnd.choice(list(SUITES))
        nf, dims = SUITES[su]
        self.key = key = (su, rnd.randint(1, nf), rnd.choice(dims), rnd.randint(1, 15))
        self.opt = Opt(rnd, "all")
        front, near, far = pool(key)
        xs = [rnd.choice(rnd.choice([front, near, far])) for _ in range(rnd.randint(5, 60))]
        head = [["suite", 0, su, "instances: %d" % key[3], "dimensions: %d" % key[2]], ["getfdi", 0, *key[1:], 0]]
        self.L1 = head + [["obs", 0, "bbob-biobj", "result_folder: A " + self.opt.text], ["add", 0, 0]] + [["eval", 0] + [repr(v) for v in x] for x in xs] + [["pfree", 0], ["ofree", 0]]
        self.head, self.skip = head, None

    def trace(self):
        d = core.scratch() / ("rf-%d" % random.Random().randrange(10**12))
        r = core.run_script(self.L1, d)
        if len(r.events) < len(self.L1):
            return {"lat": False, "ev": [{"op": "died"}]}
        text = re.sub(r"log_nondominated: all", "", self.opt.text) + " log_nondominated: read"
        fed = [l.split("\t")[:3] for f in (d / "exdata/A").rglob("*.adat") for l in f.read_text().splitlines() if not l.startswith("%")]
        self.L = self.head + [["obs", 0, "bbob-biobj", "result_folder: B " + text], ["add", 0, 0]] + [["feed", 0] + t for t in fed] + [["pfree", 0], ["ofree", 0]]
        r2 = core.run_script(self.L, d)
        if len(r2.events) < len(self.L) or not fed:
            return {"lat": False, "ev": [{"op": "died"}]}
        rows = {}
        for q in "AB":
            fs = list((d / "exdata" / q).rglob("*_hyp.dat"))
            rows[q] = [l.split("\t") for f in fs for l in f.read_text().splitlines() if not l.startswith("%")]
        vals = []

        def tok(v):
            v = float(v)
            for k, u in enumerate(vals):
                if abs(u - v) <= 1e-9 * max(1, abs(v)):
                    return k
            vals.append(v)
            return len(vals) - 1
        out = {q: [[int(t[0]), tok(t[1])] for t in rows[q]] for q in "AB"}
        shutil.rmtree(d, ignore_errors=True)
        return {"lat": False, "ev": [{"op": "refed", "first": out["A"], "second": out["B"], "last": int(fed[-1][0])}]}


def info(text):
    ls = text.split("\n")
    out = []
    m = re.fullmatch(r"suite = '(\S+)', algorithm = '(.*)', indicator = 'hyp', folder = '(\S+)', coco_version = '.*'", ls[0])
    out.append({"suite": m[1] if m else "?" + ls[0][:200], "alg": m[2] if m else "", "f": 0, "d": 0, "data": "", "ent": []})
    for l in ls[2:]:
        m = re.match(r"function = +(\d+), dim = +(\d+), (\S+)_hyp\.dat", l)
        ent = []
        for x in (l[m.end():].split(", ")[1:] if m else []):
            q = re.fullmatch(r"(\d+):(\d+)\|(\S+)", x)
            ent.append({"inst": int(q[1]), "n": int(q[2]), "val": q[3]} if q else {"inst": -1, "n": -1, "val": x})
        out.append({"suite": "", "alg": "", "f": int(m[1]) if m else -1, "d": int(m[2]) if m else -1, "data": m[3] if m else l, "ent": ent})
    return out
