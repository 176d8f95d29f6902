"""rw and toy logger traces (C24)."""
import math, random, re, shutil
import core, evaltr, bbobtr, biobjtr

SUITES = [("bbob", [2, 3, 5, 10]), ("bbob-constrained", [2, 3, 5, 10]), ("bbob-mixint", [5, 10]), ("bbob-biobj", [2, 5]), ("bbob-biobj-mixint", [5, 10]),
          ("bbob-biobj-ext", [3]), ("bbob-largescale", [20]), ("bbob-boxed", [2, 5]), ("toy", [2, 3, 5])]
SINGLE = [s for s in SUITES if "biobj" not in s[0]]


def text(v, prec):
    t = "%.*e" % (prec, v)
    return t.replace("+inf", "inf").replace("inf", "inf")


class Opt:
    """an rw (0) or toy (1) observer"""
    def __init__(self, kind, rnd, keys):
        self.kind = kind
        o = []
        self.px, self.pf, self.pg, self.asint = 8, 15, 3, 0

        def prec(name, default):
            if rnd.random() < .5:
                return default
            # enough digits to tell the targets of the toy logger from each other
            v = rnd.choice([1, 2, 3, 6, 12, 17, 20, 32, 0, -1, 33, 100] if kind == "rw" or name != "precision_f" else [6, 12, 17, 32, 0, 33])
            o.append("%s: %d" % (name, v))
            return v if 1 <= v <= 32 else default
        self.px, self.pf, self.pg = prec("precision_x", 8), prec("precision_f", 15), prec("precision_g", 3)
        if rnd.random() < .5:
            self.asint = rnd.choice([0, 1, 1]); o.append("log_discrete_as_int: %d" % self.asint)
        self.nt, self.lp, self.file = 100, 1e-8, "first_hitting_times.dat"
        self.vars = self.cons = "all"
        self.lowv = self.lowc = 10
        self.better = self.time = 0
        if kind == "toy":
            if rnd.random() < .6:
                self.nt = rnd.choice([1, 2, 5, 10, 100, 1000]); o.append("number_target_triggers: %d" % self.nt)
            if rnd.random() < .5:
                t = rnd.choice(["1e-8", "1e-4", "0.5", "-1", "0"]); v = float(t); self.lp = v if v > 0 else 1e-8; o.append("log_target_precision: " + t)
            if rnd.random() < .5:
                self.file = rnd.choice(["hits.txt", "toy", "a-b_c.d"]); o.append("file_name: " + self.file)
        else:
            dims = sorted({k[2] for k in keys})
            if rnd.random() < .6:
                self.vars = rnd.choice(["none", "low_dim", "low_dim", "all"]); o.append("log_variables: " + self.vars)
            if rnd.random() < .5:
                self.lowv = rnd.choice(dims + [d - 1 for d in dims] + [0, 1, 1000]); o.append("low_dim_vars: %d" % self.lowv)
            if rnd.random() < .6:
                self.cons = rnd.choice(["none", "low_dim", "all"]); o.append("log_constraints: " + self.cons)
            if self.cons == "low_dim":   # the documentation is of two minds what is compared: both ways give the same
                self.lowc = rnd.choice([0, 1000]); o.append("low_dim_cons: %d" % self.lowc)
            if rnd.random() < .6:
                self.better = rnd.choice([0, 1, 1]); o.append("log_only_better: %d" % self.better)
            if rnd.random() < .3:
                self.time = rnd.choice([0, 1]); o.append("log_time: %d" % self.time)
        rnd.shuffle(o)
        self.text = " ".join(o)

    def record(self):
        return {"kind": self.kind, "vars": self.vars, "lowv": self.lowv, "cons": self.cons, "lowc": self.lowc, "better": self.better, "time": self.time, "file": self.file}

    def target(self, v):
        """([sign, exponent], clear of rounding)"""
        if v == 0:
            return [0, 0], True
        q = math.log10(max(abs(v), self.lp)) * self.nt
        near = abs(q - round(q)) < 1e-9
        if v > 0:
            return [1, math.ceil(q)], not near
        return [-1, math.floor(q)], not near and v < -self.lp

    def read_target(self, t):
        v = float(t)
        if v == 0:
            return [0, 0]
        if not math.isfinite(v):
            return [8, 0]
        q = math.log10(abs(v)) * self.nt
        tol = 1e-9 + self.nt * 10.0 ** -self.pf
        if abs(q - round(q)) > tol or tol > .3:
            return [8, 0]
        return [1 if v > 0 else -1, round(q)]


class Job:
    def __init__(self, hist, rnd, crash=False):
        self.rnd, self.hist, self.skip = rnd, hist, None
        only = rnd.random() < .6      # the toy logger is for single-objective problems
        self.toy = only
        pool = SINGLE if only else SUITES
        self.keys = []
        while len(self.keys) < 3:
            s, ds = rnd.choice(pool)
            k = (s, rnd.randrange(1, evaltr.NF[s] + 1), rnd.choice(ds), 1 if s == "toy" else rnd.randrange(1, 16))
            if k not in self.keys:
                self.keys.append(k)
        self.opt = [Opt("rw", rnd, self.keys), Opt("toy", rnd, self.keys)]
        self.build()
        self.cut = rnd.randrange(3, len(self.L)) if crash else None

    def point(self, key, lev, dr):
        rnd, d = self.rnd, key[2]
        if "biobj" in key[0]:
            return [repr(rnd.choice([rnd.uniform(-5, 5), rnd.uniform(-2, 30), float(rnd.randrange(-4, 20))])) for _ in range(d)]
        x = bbobtr.Job.point(self, key, lev, dr)
        if key[0] == "bbob-boxed":
            x = [repr(min(5.0, max(-5.0, float(v)))) for v in x]
        if key[0] == "bbob-mixint" and rnd.random() < .4:
            x = [repr(float(v) + rnd.choice([-3, -1, 0, 0.3, -0.3, -40])) for v in x]
        return x

    def build(self):
        L, A, rnd = [], [], self.rnd
        def say(l, a=None):
            L.append(l); A.append(a)
        for o in (0, 1):
            if o == 0 or self.toy:
                say(["obs", o, self.opt[o].kind, ("result_folder: R%d " % o) + self.opt[o].text], {"op": "obs", "o": o})
        shadow, cur, stack, last = {}, {}, {}, {}
        ns, gone = 2, set()
        for h in self.hist:
            op, p = h["op"], h["p"]
            if op == "open":
                key = self.keys[h["key"] - 1]
                if key not in shadow:
                    sl = 20 + len(shadow); shadow[key] = sl
                    say(["suite", sl, key[0], "instances: %d" % key[3], "dimensions: %d" % key[2]])
                    say(["getfdi", sl, key[1], key[2], key[3], sl])
                    say(["pinfo", sl], {"op": "info", "key": key})
                ns = 2 + (ns - 1) % 17
                say(["suite", ns, key[0], "instances: %d" % key[3], "dimensions: %d" % key[2]])
                say(["getfdi", ns, key[1], key[2], key[3], p], {"op": "open", "p": p, "key": key})
                cur[p], stack[p] = key, []
                last.pop(p, 0)
            elif op == "add":
                # a second observer only where the inner and the outer problem count the same; no toy logger on several objectives
                if h["o"] == 1 and not self.toy or (stack[p] and cur[p][0] == "bbob-constrained") or h["o"] in gone:
                    continue
                say(["add", p, h["o"]], {"op": "add", "p": p, "o": h["o"]}); stack[p].append(h["o"])
            elif op == "rem":
                if stack.get(p) and stack[p][-1] == h["o"] and h["o"] not in gone:
                    say(["rem", p, h["o"]], {"op": "rem", "p": p}); stack[p].pop()
            elif op == "free":
                say(["pfree", p], {"op": "free", "p": p}); cur.pop(p); stack.pop(p)
            elif op == "restart":
                if h["o"] in stack.get(p, []) and h["o"] not in gone:
                    say(["restart", h["o"], p])
            elif op == "ofree":
                say(["ofree", 0]); gone.add(0)
            elif op in ("eval", "again"):
                key = cur[p]
                for _ in range(h.get("n", 1)):
                    x = last.get(p) if op == "again" and p in last else self.point(key, h.get("lev", 3), h.get("dir", 0))
                    last[p] = x
                    if key[0] == "bbob-constrained":
                        say(["cons", shadow[key]] + x, {"op": "c"})
                    say(["eval", p] + x, {"op": "eval", "p": p, "x": x, "key": key})
            elif op == "rec":
                if "biobj" not in cur[p][0]:
                    say(["rec", p] + self.point(cur[p], h["lev"], 0))
            elif op == "cons" and cur[p][0] == "bbob-constrained":
                for _ in range(h["n"]):
                    say(["cons", p] + self.point(cur[p], h["lev"], 0), {"op": "cons", "p": p})
        self.tail = len(L)
        for p in sorted(cur):
            say(["pfree", p], {"op": "free", "p": p})
        for o in (0, 1):
            if o not in gone and (o == 0 or self.toy):
                say(["ofree", o])
        self.L, self.A = L, A

    # ------------------------------------------------------------------
    def read(self, d):
        out = []
        for o in (0, 1):
            root = d / "exdata" / ("R%d" % o)
            if not root.exists():
                continue
            for f in sorted(x for x in root.rglob("*") if x.is_file()):
                nm = str(f.relative_to(root))
                if o == 0:
                    nm = nm[:-7] if nm.endswith("_rw.txt") else "?" + nm
                t = f.read_text(errors="replace")
                lines = self.parse(o, t)
                out.append({"o": o, "name": nm, "lines": lines})
        return out

    def parse(self, o, t):
        out, opt = [], self.opt[o]
        bad = lambda l: {"h": "?" + l[:200], "n": 0, "nc": 0, "t": [9, 0], "c": [], "tm": 0}
        if t and not t.endswith("\n"):
            return [bad("unterminated")]
        for l in t.split("\n")[:-1]:
            m = re.match(r"^%?\s*suite = '(.*?)', problem_id = '(.*?)', problem_name = '(.*?)', coco_version = ", l)
            if m:
                out.append({"h": "%s %s" % m.groups()[:2], "n": 0, "nc": 0, "t": [9, 0], "c": [], "tm": 0})
            elif not l.strip() or l.startswith("%"):
                continue
            else:
                w = [x[1:] if x[:1] == "+" else x for x in l.strip("\t ").split("\t")]
                try:
                    if o == 0:
                        out.append({"h": "", "n": int(w[0]), "nc": int(w[1]), "t": [9, 0], "c": w[2:], "tm": 1 if re.fullmatch(r"\d+(\.\d*)?", w[-1]) else 0})
                    else:
                        out.append({"h": "", "n": int(w[0]), "nc": 0, "t": opt.read_target(w[2]), "c": [w[1]] + w[3:], "tm": 0})
                except (ValueError, IndexError):
                    out.append(bad(l))
        return out

    def trace(self):
        lines = self.L if self.cut is None else self.L[:self.cut] + [["die"]]
        d = core.scratch() / ("pl-%d" % random.Random().randrange(10**12))
        r = core.run_script(lines, d)
        disk = self.read(d)
        shutil.rmtree(d, ignore_errors=True)
        ev, info, c, vals = [], {}, [], set()
        stack = {}
        for e in r.events:
            a = self.A[e["l"] - 1] if e["l"] - 1 < len(self.A) else None
            if a is None or e["op"] == "die":
                continue
            op = a["op"]
            if op == "obs":
                ev.append({"op": "obs", "o": a["o"], "opt": self.opt[a["o"]].record()})
            elif op == "info":
                info[a["key"]] = e
            elif op == "open":
                k, i = a["key"], info[a["key"]]
                stack[a["p"]] = []
                ev.append({"op": "open", "p": a["p"], "key": {"id": i["id"], "head": "%s %s" % (k[0], i["id"]), "d": k[2], "nobj": int(i["nobj"]), "ncons": int(i["ncons"])}})
                self.nint = getattr(self, "nint", {}); self.nint[k] = int(i["nint"])
            elif op == "c":
                c = [float(v) for v in e["y"]]
            elif op == "eval":
                k = a["key"]
                y = [float(v) for v in e["y"]]
                x = [float(v) for v in a["x"]]
                R, T = self.opt
                t = [7, 0]
                if self.toy and 1 in stack[a["p"]]:
                    t, clear = T.target(y[0])
                    if not clear:
                        self.skip = "boundary"
                if R.asint and any(math.isclose(abs(v - math.floor(v)), .5, abs_tol=1e-9) for v in x[:self.nint[k]]):
                    self.skip = "tie"
                rx = ["%d" % math.floor(v + .5) if n < self.nint[k] and R.asint else text(v, R.px) for n, v in enumerate(x)]
                vals.add(y[0])
                ev.append({"op": "eval", "p": a["p"], "v": y[0], "t": t,
                           "rw": {"y": [text(v, R.pf) for v in y], "x": rx, "c": [text(v, R.pg) for v in (c if k[0] == "bbob-constrained" else [])]},
                           "toy": {"y": [text(y[0], T.pf)], "x": [text(v, T.px) for v in x]}})
            elif op == "add":
                stack[a["p"]].append(a["o"]); ev.append(dict(a))
            else:
                if op == "rem":
                    stack[a["p"]].pop()
                ev.append(dict(a))
        rk = {v: n for n, v in enumerate(sorted(vals))}
        for e in ev:
            if e["op"] == "eval":
                e["v"] = rk[e["v"]]
        want = len(lines) if self.cut is None else self.cut
        if len([e for e in r.events if e["op"] != "die"]) < want:
            ev.append({"op": "died", "rc": r.rc, "stderr": r.stderr[-300:], "at": str(r.partial)[:200]})
        else:
            # problems opened by the run that ended early stay open: nothing more is written for them
            ev.append({"op": "disk" if self.cut is None or self.cut > self.tail else "crash", "files": disk})
            if self.cut is not None:
                ev[-1]["op"] = "crash"
        return {"ev": ev}
