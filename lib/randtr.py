"""Random number generators and message levels (C26)."""
import math, random, re, shutil
import core

M32 = 2**32
A = 1812433253


def back(i, s):
    """the seed for which the i-th number of the expansion is s"""
    ai = pow(A, -1, M32)
    for j in range(i - 1, -1, -1):
        u = (s - (j + 1)) * ai % M32
        s = u ^ (u >> 30)
    return s


def sequence(seed, n):
    """lagged Fibonacci generator with lags 607 and 273 on doubles, numbers in [0, 1)"""
    x = []
    for i in range(607):
        v = seed / (M32 - 1)
        x.append(1.0 - 2.0**-52 if v >= 1.0 else v)
        seed = (A * (seed ^ (seed >> 30)) + i + 1) % M32
    while len(x) < n + 12:
        t = x[-607] + x[-273]
        x.append(t - 1.0 if t >= 1.0 else t)
    return x[12:]


SPECIAL = [0, 1, M32 - 1, 2**31, 2**30, 3 * 2**30 + 5, back(12, M32 - 1), back(40, M32 - 1), back(606, M32 - 1), 4000000000]


class Job:
    def __init__(self, hist, rnd):
        self.seeds = [rnd.choice(SPECIAL) if rnd.random() < .5 else rnd.randrange(M32) for _ in range(8)]
        L, A_ = [], []

        def say(l, a=None):
            L.append(l); A_.append(a)
        say(["suite", 30, "bbob-noisy", "instances: 1", "dimensions: 2"])
        fs = rnd.sample(range(101, 131), 3)
        for q, f in enumerate(fs):
            say(["getfdi", 30, f, 2, 1, 20 + q])
        say(["seeds"], {"op": "shared"})
        cnt, size = 0, {}
        for h in hist:
            op = h["op"]
            cnt += 1
            if op == "new":
                say(["rnew", h["g"], self.seeds[h["seed"]]], {"op": "new", "g": h["g"], "seed": h["seed"] + 1}); size[h["g"]] = h["seed"]
            elif op in ("uni", "norm"):
                for _ in range(h["n"]):
                    say(["runi" if op == "uni" else "rnorm", h["g"]], {"op": op, "g": h["g"]})
            elif op == "drop":
                say(["rfree", h["g"]], {"op": "drop", "g": h["g"]})
            elif op == "level":
                say(["loglevel", h["l"]], {"op": "level", "l": h["l"], "id": cnt})
            elif op == "msg":
                say(["msg", h["m"], "<%d>" % cnt], {"op": "msg", "m": h["m"], "id": cnt})
            elif op == "seeds":
                say(["seeds"], {"op": "shared"})
            elif op == "work":
                for _ in range(h["n"]):
                    say(["eval", 20 + h["w"], repr(rnd.uniform(-4, 4)), repr(rnd.uniform(-4, 4))], {"op": "work"})
        self.L, self.A = L, A_
        self.alone = [l for l, a in zip(L, A_) if a is None or a["op"] in ("work", "shared")]

    def run(self, lines, tag):
        d = core.scratch() / ("rn-%s-%d" % (tag, random.Random().randrange(10**12)))
        r = core.run_script(lines, d)
        shutil.rmtree(d, ignore_errors=True)
        return r

    def trace(self):
        r, ref = self.run(self.L, "a"), self.run(self.alone, "b")
        works = [e["y"] for e in ref.events if e["op"] == "eval"]
        ids, ev, nw = {}, [], 0
        num = lambda v: ids.setdefault(round(v * 1e10), len(ids) + 1) if math.isfinite(v) else -1
        used, pos, seed_of = {}, {}, {}
        levels = []
        for e in r.events:
            a = self.A[e["l"] - 1]
            if a is None or a["op"] == "shared":
                continue
            x = dict(a)
            if a["op"] == "new":
                seed_of[a["g"]] = a["seed"]; pos[a["g"]] = 0; used.setdefault(a["seed"], 0)
            elif a["op"] in ("uni", "norm"):
                v = float(e["v"])
                x["v"], x["in"] = num(v), 1 if 0 <= v < 1 else 0
                pos[a["g"]] += 1 if a["op"] == "uni" else 2
                s = seed_of[a["g"]]
                used[s] = max(used[s], pos[a["g"]])
            elif a["op"] == "level":
                x["old"] = e["old"]
                if a["l"] in ("loud", "Warning"):
                    levels.append(a["id"])
            elif a["op"] == "work":
                x["v"], x["w"] = str(e["y"]), str(works[nw]) if nw < len(works) else "missing"
                nw += 1
            ev.append(x)
        if len(r.events) < len(self.L):
            ev.append({"op": "died", "rc": r.rc, "stderr": r.stderr[-200:]})
        else:
            out = [int(t) for t in re.findall(r"<(\d+)>", r.stdout)]
            err, lv = [], list(levels)
            # a warning about an unknown level stands for its command; which one is decided by the order of the others
            marks = re.findall(r"<(\d+)>|unknown level (\w+)", r.stderr)
            err = self.place(marks)
            ev.append({"op": "end", "out": out, "err": err})
        U, N = [], []
        for k in range(1, 9):
            s = sequence(self.seeds[k - 1], used.get(k, 0) + 16) if k in used else []
            U.append([num(v) for v in s])
            N.append([num(math.sqrt(-2 * math.log(s[q])) * math.cos(2 * math.pi * s[q + 1])) if s[q] > 0 else 0 for q in range(len(s) - 1)])
        return {"ev": ev, "uni": U, "norm": N}

    def place(self, marks):
        """numbers the warnings about unknown levels by the commands they can belong to, in order"""
        # levels in force, to know which of the commands are silent: replay of the level commands only
        lev, vis = "error", []
        for a in self.A:
            if not a:
                continue
            if a["op"] == "level":
                if a["l"] in ("error", "warning", "info", "debug"):
                    lev = a["l"]
                elif a["l"] and lev != "error":
                    vis.append((a["id"], a["l"]))
            elif a["op"] == "msg" and a["m"] == "warning" and lev != "error":
                vis.append((a["id"], None))
        out = []
        for n, (m, l) in enumerate(marks):
            if m:
                out.append(int(m))
            else:   # matched with the visible command at this place, if it is one of that level
                out.append(vis[n][0] if n < len(vis) and vis[n][1] == l else -1)
        return out
