"""bbob logger traces (C07-C10, C17, C25): concrete runs of a behaviour, expected strings from an unobserved
problem evaluated at the same points, files parsed back."""
import math, random, re, shutil
from pathlib import Path
import core, evaltr

GROUPS = [("bbob", "bbob-boxed", [2, 3, 5, 10, 20]), ("bbob", "bbob", [2, 3, 5, 10]), ("bbob-constrained", "bbob", [2, 3, 5]),
          ("bbob-constrained", "bbob-boxed", [2, 5, 10]), ("bbob-mixint", "bbob", [5, 10, 20]), ("bbob", "toy", [2, 3, 5]), ("toy", "bbob-constrained", [2, 3]),
          ("bbob-largescale", "bbob", [20, 40]), ("bbob-constrained", "bbob-constrained", [2, 3, 5, 10]), ("bbob-mixint", "bbob-mixint", [5, 10])]
INF_LOG = 3e21     # what is logged for an infinite value
BASES = ["", "", "1,2,5", "1,3", "2", "7", "3,4,9"]


def fmt(v):
    return "%+10.9e" % v


def digit(c):
    for k, l in enumerate([0, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 1e-1, 1]):
        if c <= l:
            return k
    return 9


class Opt:
    def __init__(self, rnd, vary=True):
        self.nt, self.lp, self.lin, self.alg, self.base = 100, 1e-8, 1e-5, "ALG", [1, 2, 5]
        o = []
        if vary and rnd.random() < .75:
            if rnd.random() < .7:
                self.nt = rnd.choice([0, 1, 3, 10, 20, 100]); o.append("number_target_triggers: %d" % self.nt)
            if rnd.random() < .4:
                t = rnd.choice(["1e-8", "1e-4", "0.5", "1e-2"]); self.lp = float(t); o.append("log_target_precision: " + t)
            if rnd.random() < .7:
                t = rnd.choice(["1e-5", "0.01", "7", "1e3", "1e6"]); self.lin = float(t); o.append("lin_target_precision: " + t)
            b = rnd.choice(BASES)
            if b:
                self.base = [int(x) for x in b.split(",")]; o.append('base_evaluation_triggers: "%s"' % b)
            if rnd.random() < .3:
                self.alg = rnd.choice(["CMA-ES", "my_alg", "A1"]); o.append("algorithm_name: " + self.alg)
        rnd.shuffle(o)
        self.text = " ".join(o)

    def targets(self, diff):
        """(index of the logarithmic target, linear target, clear of rounding)"""
        clear = clin = True
        le = 0
        if self.nt:
            v = self.lp / 10 if diff == 0 else max(diff, self.lp)
            q = math.log10(v) * self.nt
            le = math.ceil(q)
            if abs(q - round(q)) < 1e-9:
                # zero and values below the precision stand for fixed targets
                clear = diff < self.lp and abs(q - round(q)) == 0.0
                if diff < self.lp:
                    le, clear = math.ceil(q), True
        # linear targets: the next multiple of the precision; a value less than 1e-12 above a multiple counts as that multiple
        q = diff / self.lin
        up, near = math.ceil(q) * self.lin, math.floor(q + .5) * self.lin
        li = near if abs(near - up) >= self.lin and abs(diff - near) < 1e-12 else up
        if diff > 5e-13 and abs(diff - near) < max(3e-12, diff * 1e-14):
            clin = False
        return le, li, clear, clin


class Job:
    def __init__(self, hist, rnd, vary=True, crash=False, force=None, opts=None, prefix=None):
        self.rnd, self.hist = rnd, hist
        self.grp = force or rnd.choice(GROUPS)
        self.dims = rnd.sample(self.grp[2], 2)
        self.fun = {}
        self.insts = rnd.sample(range(1, 16), 3)
        self.opt = opts or {o: Opt(rnd, vary) for o in (0, 1)}
        self.crash = crash
        self.skip = None
        same = rnd.random() < .6
        for s in (1, 2):
            nf = evaltr.NF[self.grp[s - 1]]
            self.fun[s] = rnd.sample(range(1, nf + 1), 2)
        if same:
            m = min(evaltr.NF[g] for g in self.grp[:2])
            f = rnd.sample(range(1, m + 1), 2)
            self.fun = {1: f, 2: f}
        self.build()

    def key(self, k):
        s, f, d, i = k
        su = self.grp[s - 1]
        return (su, self.fun[s][f - 1], self.dims[d - 1], 1 if su == "toy" else self.insts[i - 1])

    def point(self, key, lev, dr):
        xo, d, rnd = evaltr.xopt(key), key[2], self.rnd
        if xo is None:
            return [repr(round(rnd.uniform(-5, 5), 6)) for _ in range(d)]
        if lev >= 9:
            return [repr(v) for v in xo]
        t = 10.0 ** (1 - lev) * rnd.uniform(.15, 1)
        if "mixint" in key[0]:
            lo = [v + rnd.choice([-1, 1]) * (rnd.uniform(0, 1.5) if lev < 4 else t) for v in xo]
            return [repr(v) for v in lo]
        if dr == 0:
            x = [v + t * rnd.gauss(0, 1) for v in xo]
        elif dr == 1:
            x = list(xo); x[rnd.randrange(d)] += t * rnd.choice([-1, 1])
        else:
            x = [v - t * rnd.uniform(0, 1) * (1 if v > 0 else -1) for v in xo]
        return [repr(v) for v in x]

    def build(self):
        L, ask, rnd = [], [], self.rnd
        self.keys, self.shadow = {}, {}
        for o in (0, 1):
            L.append(["obs", o, "bbob", "result_folder: R%d %s" % (o, self.opt[o].text)]); ask.append({"op": "obs", "o": o})
        ns = 2
        cur = {}
        for h in self.hist:
            op, p = h["op"], h["p"]
            if op == "open":
                key = self.key(h["key"])
                if key not in self.shadow:
                    sl = 20 + len(self.shadow)
                    self.shadow[key] = sl
                    L.append(["suite", sl, key[0], "instances: %d" % key[3], "dimensions: %d" % key[2]]); ask.append(None)
                    L.append(["getfdi", sl, key[1], key[2], key[3], sl]); ask.append(None)
                    L.append(["meta", sl]); ask.append({"op": "meta", "key": key})
                ns = 2 + (ns - 1) % 17
                L.append(["suite", ns, key[0], "instances: %d" % key[3], "dimensions: %d" % key[2]]); ask.append({"op": "-"})
                L.append(["getfdi", ns, key[1], key[2], key[3], p]); ask.append({"op": "open", "p": p, "key": key})
                cur[p] = key
                if h["o"] >= 0:
                    L.append(["add", p, h["o"]]); ask.append({"op": "add", "p": p, "o": h["o"], "key": key})
            elif op == "add":
                L.append(["add", p, h["o"]]); ask.append({"op": "add", "p": p, "o": h["o"], "key": cur[p]})
            elif op == "rem":
                L.append(["rem", p, h["o"]]); ask.append({"op": "rem", "p": p})
            elif op == "free":
                L.append(["pfree", p]); ask.append({"op": "free", "p": p}); cur.pop(p)
            elif op == "restart":
                L.append(["restart", h["o"], p]); ask.append({"op": "restart", "p": p})
            elif op in ("eval", "rec", "burst"):
                key = cur[p]
                for q in range(h.get("n", 1)):
                    x = self.point(key, h["lev"], h.get("dir", 0))
                    sl = self.shadow[key]
                    L.append(["eval", sl] + x); ask.append({"op": "y", "x": x})
                    if key[0] == "bbob-constrained":
                        L.append(["cons", sl] + x); ask.append({"op": "c"})
                    L.append(["rec" if op == "rec" else "eval", p] + x); ask.append({"op": "rec" if op == "rec" else "eval", "p": p, "x": x, "key": key})
            elif op == "cons":
                key = cur[p]
                if key[0] == "bbob-constrained":
                    for q in range(h["n"]):
                        x = self.point(key, h["lev"], 0)
                        L.append(["cons", p] + x); ask.append({"op": "cons", "p": p})
        if not self.crash:
            for p in sorted(cur):
                L.append(["pfree", p]); ask.append({"op": "free", "p": p})
            if rnd.random() < .5:
                for o in (0, 1):
                    L.append(["ofree", o]); ask.append({"op": "-"})
        self.L, self.ask = L, ask

    # ------------------------------------------------------------------
    def run(self, lines=None, at=None):
        d = core.scratch() / ("bb-%d" % random.Random().randrange(10**12))
        if at is None:
            r = core.run_script(lines or self.L, d)
        else:
            import build
            r = core.run_script(lines or self.L, d, san=build.crasher(), env={"CRASH_AT": str(at), "CRASH_COUNT": "count"})
            f = d / "count"
            self.count = int(f.read_text()) if f.exists() else None
        disk = self.read(d)
        shutil.rmtree(d, ignore_errors=True)
        return r, disk

    def read(self, d):
        out = {"files": [], "info": []}
        for o in (0, 1):
            root = d / "exdata" / ("R%d" % o)
            if not root.exists():
                continue
            names = sorted({str(f.relative_to(root).with_suffix("")) for f in root.glob("*/*.*dat")})
            for nm in names:
                rec = {"o": o, "name": nm}
                for x in ("dat", "tdat", "rdat", "mdat"):
                    f = root / (nm + "." + x)
                    rec[x] = [row(l) for l in f.read_text(errors="replace").split("\n")[:-1]] if f.exists() else [["missing"]]
                    if f.exists() and f.read_bytes()[-1:] not in (b"\n", b""):
                        rec[x].append(["unterminated"])
                out["files"].append(rec)
            for f in sorted(root.glob("*.info")):
                m = re.fullmatch(r"bbobexp_f(\d+)\.info", f.name)
                out["info"].append({"o": o, "f": int(m[1]) if m else -1, "lines": info(f.read_text(errors="replace"))})
            extra = [str(f.relative_to(root)) for f in root.rglob("*") if f.is_file() and f.suffix not in (".dat", ".tdat", ".rdat", ".mdat", ".info")]
            if extra:
                out["files"].append({"o": o, "name": "unexpected:" + extra[0], "dat": [], "tdat": [], "rdat": [], "mdat": []})
        return out

    def trace(self, cut=None, at=None):
        """cut: number of lines after which the process dies; at: output call before which it dies."""
        lines = self.L if cut is None else self.L[:cut] + [["die"]]
        r, disk = self.run(lines, at)
        ev, fopt, nint, y, c = [], {}, {}, None, None
        obs_of, gc, key_of = {}, {}, {}
        raws, best, under = [], {}, []
        dead = len(r.events) < (len(lines) if cut is None else cut)
        todo = [e for e in r.events if e["op"] != "die"]
        inside = at is not None and r.rc == 77
        if inside:   # the command under way when the process died: its effect may be there in part
            todo.append({"l": len(r.events) + 1, "op": "?"})
            dead = False
        for e in todo:
            mark = len(ev)
            a = self.ask[e["l"] - 1] if e["l"] - 1 < len(self.ask) else None
            if a is None or a["op"] == "-":
                continue
            op = a["op"]
            if e["op"] == "?" and op not in ("eval", "rec", "rem", "free", "add", "cons", "restart"):
                continue
            if op == "obs":
                q = self.opt[a["o"]]
                ev.append({"op": "obs", "o": a["o"], "alg": q.alg, "base": q.base})
            elif op == "meta":
                fopt[a["key"]] = float(e["fopt"]); nint[a["key"]] = 0
            elif op == "open":
                gc[a["p"]] = 0; key_of[a["p"]] = a["key"]; obs_of[a["p"]] = None
            elif op == "add":
                k = a["key"]
                obs_of[a["p"]] = a["o"]
                best.pop(("eval", a["p"]), 0); best.pop(("rec", a["p"]), 0)
                ev.append({"op": "add", "p": a["p"], "o": a["o"], "g0": gc[a["p"]], "logt": 1 if self.opt[a["o"]].nt else 0,
                           "key": {"suite": k[0], "f": k[1], "d": k[2], "inst": k[3], "fopt": "%13.12e" % fopt[k]}})
            elif op in ("rem", "free"):
                if obs_of.get(a["p"]) is not None:
                    ev.append({"op": "release", "p": a["p"]})
                obs_of[a["p"]] = None
            elif op == "restart":
                ev.append({"op": "restart", "p": a["p"]})
            elif op == "y":
                y, c = float(e["y"][0]), []
                y = INF_LOG if math.isinf(y) else y
            elif op == "c":
                c = [float(v) for v in e["y"]]
            elif op == "cons":
                gc[a["p"]] += 1
                if obs_of[a["p"]] is not None:
                    ev.append({"op": "cons", "p": a["p"]})
            elif op in ("eval", "rec"):
                o = obs_of[a["p"]]
                if o is None:
                    continue
                k = a["key"]
                s = 0.0
                for v in c:
                    if v > 0:
                        s += v
                v = max(y, fopt[k]) + s
                diff = v - fopt[k]
                le, li, clear, clin = self.opt[o].targets(diff)
                b = best.get((op, a["p"]))
                if b is None or v < b:
                    best[(op, a["p"])] = v
                    # an improvement by several linear steps passes a linear target however it is rounded
                    if not clear or (not clin and b is not None and b - v < 4 * self.opt[o].lin):
                        self.skip = "boundary"
                raws.append((v, li))
                x = [float(t) for t in a["x"]]
                ev.append({"op": op, "p": a["p"], "v": v, "le": le, "li": li, "sb": fmt(diff), "sm": fmt(y), "sv": fmt(v), "si": "%.1e" % diff,
                           "sx": " ".join("%+5.4e" % t for t in x) if k[2] < 22 else "", "dg": "".join(str(digit(t)) for t in c)})
            if inside and e is todo[-1]:
                under = ev[mark:]
                del ev[mark:]
        vs = {v: n for n, v in enumerate(sorted({t[0] for t in raws}))}
        ls = {v: n for n, v in enumerate(sorted({t[1] for t in raws}))}
        for e in ev:
            if e["op"] in ("eval", "rec"):
                e["v"], e["li"] = 1000000000 if e["v"] >= INF_LOG else vs[e["v"]], ls[e["li"]]
        if inside:
            for e in under:
                if e["op"] in ("eval", "rec"):
                    e["v"], e["li"] = 1000000000 if e["v"] >= INF_LOG else vs[e["v"]], ls[e["li"]]
            u = under[0] if under else {"op": "none"}
            ev.append({"op": "within", "e": u, **disk})
        elif dead:
            ev.append({"op": "died", "rc": r.rc, "stderr": r.stderr[-300:], "at": str(r.partial)[:200]})
        else:
            ev.append({"op": "disk" if cut is None else "crash", **disk})
        return {"ev": ev}


def row(l):
    if l.startswith("%"):
        m = re.search(r"best noise-free fitness - Fopt \(\s*([^)]*)\)", l)
        return ["%", m[1] if m else l]
    t = l.split(" ")
    return t[:5] + [" ".join(t[5:])]


def info(text):
    out = []
    ls = text.split("\n")
    k = 0
    while k < len(ls):
        m = re.match(r"suite = '(.*?)', funcId = (\d+), DIM = (\d+), Precision = 1\.000e-08, algId = '(.*?)', coco_version = '.*', logger = 'bbob', data_format = 'bbob-new2'$", ls[k])
        if not m or k + 2 >= len(ls) or ls[k + 1] != "%":
            if ls[k] == "" and k == len(ls) - 1:
                break
            out.append({"suite": "?" + ls[k][:200], "f": 0, "d": 0, "alg": "", "data": "", "ent": []})
            k += 1
            continue
        t = ls[k + 2].split(", ")
        ent = []
        for x in t[1:]:
            q = re.fullmatch(r"(\d+):(\d+)\|(\S+)", x)
            ent.append({"inst": int(q[1]), "n": int(q[2]), "val": q[3]} if q else {"inst": int(x) if x.isdigit() else -1, "n": -1, "val": "" if x.isdigit() else x})
        out.append({"suite": m[1], "f": int(m[2]), "d": int(m[3]), "alg": m[4], "data": t[0][:-4] if t[0].endswith(".dat") else "?" + t[0], "ent": ent})
        k += 3
    return out
