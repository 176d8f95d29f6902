"""Evaluation traces (C04-C06, C14): concrete problems and points for a behaviour, reference values
from isolated processes, events for EvalTrace.tla."""
import json, math, random, re, shutil, sys, threading
import build, core

NF = {"toy": 6, "bbob": 24, "bbob-boxed": 24, "bbob-largescale": 24, "bbob-mixint": 24, "bbob-biobj": 55,
      "bbob-biobj-ext": 92, "bbob-constrained": 54, "bbob-noisy": 30, "bbob-biobj-mixint": 92}
DIMS = {"toy": [2, 3, 5, 10, 20], "bbob-largescale": [20, 40, 80, 160, 320, 640], "bbob-mixint": [5, 10, 20, 40, 80, 160],
        "bbob-biobj-mixint": [5, 10, 20, 40, 80, 160]}
D40 = [2, 3, 5, 10, 20, 40]


def dims(s):
    return DIMS.get(s, D40)


def pick_key(cls, rnd):
    if cls == "single":
        s = rnd.choice(["bbob"] * 6 + ["bbob-boxed", "bbob-mixint", "bbob-largescale", "toy"])
        d = {"bbob-mixint": [5, 10], "bbob-largescale": [20]}.get(s, [2, 2, 3, 5, 5, 10, 20])
        i = 1 if s == "toy" else rnd.choice([1, 2, 3, rnd.randrange(1, 16), rnd.randrange(16, 111)])
        f = rnd.randrange(1, NF[s] + 1)
    elif cls == "cons":
        s, d = "bbob-constrained", [2, 3, 5, 10]
        f, i = rnd.randrange(1, 55), rnd.randrange(1, 16)
    elif cls == "bi":
        s = rnd.choice(["bbob-biobj", "bbob-biobj", "bbob-biobj-ext", "bbob-biobj-mixint"])
        d = [5] if s.endswith("mixint") else [2, 3, 5]
        f, i = rnd.randrange(1, NF[s] + 1), rnd.randrange(1, 16)
    else:
        s, d = "bbob-noisy", [2, 3, 5, 10]
        f, i = 100 + rnd.randrange(1, 31), rnd.randrange(1, 16)
    return (s, f, rnd.choice(d), i)


def klass(k):
    return "single" if k <= 4 else "cons" if k <= 6 else "bi" if k == 7 else "noisy"


_ref, _lock = {}, threading.Lock()


def isolated(lines, tag):
    d = core.scratch() / ("iso-" + tag)
    r = core.run_script(lines, d)
    shutil.rmtree(d, ignore_errors=True)
    return r


def open_lines(key, slot):
    s, f, d, i = key
    return [["suite", slot, s, "instances: %d" % i, ""], ["getfdi", slot, f, d, i, slot]]


def xopt(key):
    """The best parameter, read in a process of its own (None when the problem has none)."""
    with _lock:
        if ("x", key) in _ref:
            return _ref[("x", key)]
    r = isolated(open_lines(key, 0) + [["xopt", 0], ["meta", 0]], "x%d" % random.randrange(10**12))
    v = None
    if len(r.events) >= 3 and r.events[2]["r"] == 1:
        v = [float(a) for a in r.events[2]["x"]]
        if any(not math.isfinite(a) for a in v):
            v = None
    with _lock:
        _ref[("x", key)] = v
    return v


def reference(key, x):
    """Objectives, constraints and feasibility of one point, as first and only evaluation of a fresh process."""
    with _lock:
        if (key, tuple(x)) in _ref:
            return _ref[(key, tuple(x))]
    L = open_lines(key, 0) + [["eval", 0] + list(x)]
    if key[0] == "bbob-constrained":
        L += [["cons", 0] + list(x)]
    r = isolated(L, "r%d" % random.randrange(10**12))
    if r.rc or len(r.events) < 3:
        v = {"y": None, "c": [], "feas": 1}
    else:
        c = [float(a) for a in r.events[3]["y"]] if len(r.events) > 3 else []
        v = {"y": [float(a) for a in r.events[2]["y"]], "c": c, "feas": 0 if any(a > 0 for a in c) else 1}
    with _lock:
        _ref[(key, tuple(x))] = v
    return v


def relative(a, rnd):
    """A point that resembles a: what a wrong cache, hash or partial copy would confuse with it."""
    d = len(a)
    b = [float(v) for v in a]
    j, k = rnd.randrange(d), rnd.randrange(d)
    r = rnd.randrange(9)
    if r == 0:
        lo = 1 if d > 2 and rnd.random() < .7 else 0      # swap two coordinates
        j, k = (lo, lo + 1 + rnd.randrange(d - lo - 1)) if d - lo > 1 else (0, 1)
        b[j], b[k] = b[k], b[j]
    elif r == 1:
        b.reverse()
    elif r == 2:
        b[j] = round(rnd.uniform(-5, 5), 3)
    elif r == 3:
        b[j] = -b[j]
    elif r == 4:
        b = [-v for v in b]
    elif r == 5:
        b[j] += rnd.choice([1e-9, -1e-9, 1e-6, 1e-13])
    elif r == 6:
        b[-1] += rnd.choice([.5, -.25])
    elif r == 7:
        b[0] += rnd.choice([.5, -.25])
    else:
        h = rnd.choice([.5, .25])                          # same sum, first and last coordinate kept when possible
        j, k = (1, d - 2) if d >= 4 else (d - 2, d - 1)
        b[j] += h; b[k] -= h
    return [repr(v) for v in b]


def points(key, rnd):
    """Eight points (textual coordinates)."""
    d = key[2]
    box = lambda a: [repr(round(rnd.uniform(-a, a), rnd.choice([1, 3, 17]))) for _ in range(d)]
    xs = [box(5)]
    xs += [relative(xs[0], rnd), relative(xs[0], rnd) if rnd.random() < .7 else box(5)]
    xo = xopt(key) if key[0] not in ("bbob-biobj", "bbob-biobj-ext", "bbob-biobj-mixint") else None
    if xo is None:
        xs += [box(1), box(3)]
    else:
        j = rnd.randrange(d)
        xs += [[repr(v + (1e-3 if q == j else 0)) for q, v in enumerate(xo)], [repr(v) for v in xo]]
    xs.append(box(50))
    xi = box(5); xi[rnd.randrange(d)] = rnd.choice(["inf", "-inf"])
    if rnd.random() < .3:
        xi[rnd.randrange(d)] = "nan" if d > 2 else "inf"
        if not any("inf" in v for v in xi):
            xi[0] = "inf"
    xn = box(5); xn[rnd.randrange(d)] = "nan"
    return xs + [xi, xn]


OBS = {0: ("bbob", "result_folder: A0"), 1: ("bbob", "result_folder: A1"), 2: ("bbob-biobj", "result_folder: A2"),
       3: ("rw", "result_folder: A3"), 4: ("toy", "result_folder: A4")}


class Job:
    """A behaviour made concrete."""

    def __init__(self, hist, rnd, tail_taint=False, obs_options=True, keys=None):
        self.rnd = rnd
        self.keys, self.pts = dict(keys or {}), {}
        L, ask = [], []

        def emit(line, what=None):
            L.append(line); ask.append(what)
        used = sorted({h["o"] for h in hist if "o" in h})
        for o in used:
            extra = ""
            if obs_options and rnd.random() < .5:
                extra = rnd.choice(["", " precision_x: 3 precision_f: 5", " number_target_triggers: 10", " base_evaluation_triggers: \"1,3\""])
            emit(["obs", o, OBS[o][0], OBS[o][1] + extra])
        cur, stack, taint = {}, {}, {}
        ns = 0

        def about(p, always=False):
            """everything a problem says about itself"""
            if p in cur and (always or rnd.random() < .3):
                emit(["meta", p], {"op": "about", "p": p, "key": cur[p], "depth": len(stack[p])})
                if self.keys[cur[p]][0] != "toy":
                    emit(["type", p], {"op": "type", "p": p, "key": cur[p]})
        for h in hist:
            op, p = h["op"], h["p"]
            if op == "open":
                k = h["key"]
                if k not in self.keys:
                    self.keys[k] = pick_key(klass(k), rnd)
                if k not in self.pts:
                    self.pts[k] = points(self.keys[k], rnd)
                s, f, d, i = self.keys[k]
                ns = 10 + (ns - 9) % 50
                f0 = f - 100 if s == "bbob-noisy" else f
                if h["how"] == 1:
                    emit(["suite", ns, s, "instances: %d" % i, ""])
                    emit(["getfdi", ns, f, d, i, p])
                elif h["how"] == 2:
                    emit(["suite", ns, s, "instances: %d" % i, "function_indices: %d dimensions: %d" % (f0, d)])
                    emit(["getfdi", ns, f, d, i, p])
                else:
                    j = dims(s).index(d)
                    emit(["suite", ns, s, "instances: %d" % i, ""])
                    emit(["get", ns, (f0 - 1) + j * NF[s], p])
                emit(["pstate", p], {"op": "open", "p": p, "key": k})
                cur[p], stack[p], taint[p] = k, [], False
                about(p, True)
            elif op in ("eval", "cons", "rec"):
                k = cur[p]
                if op == "cons" and klass(k) != "cons":
                    continue
                emit([op, p] + self.pts[k][h["x"] - 1], {"op": op, "p": p, "key": k, "x": h["x"]})
                if rnd.random() < .2:
                    about(p)
            elif op == "xopt":
                emit(["xopt", p]); emit(["pstate", p], {"op": "xopt", "p": p, "key": cur[p]}); taint[p] = True
            elif op == "add":
                emit(["add", p, h["o"]]); emit(["pstate", p], {"op": "add", "p": p, "key": cur[p], "okind": h["kind"]}); stack[p].append(h["kind"])
                about(p)
            elif op == "rem":
                emit(["rem", p, h["o"]]); emit(["pstate", p], {"op": "rem", "p": p, "key": cur[p]}); stack[p].pop()
                about(p)
            elif op == "free":
                emit(["pfree", p], {"op": "free", "p": p, "key": cur.pop(p)})
            elif op == "seeds":
                emit(["seeds"], {"op": "seeds", "p": 0, "key": 0})
        if tail_taint:
            for p, k in cur.items():
                if taint[p] and "bbob" in stack[p]:
                    emit(["eval", p] + self.pts[k][rnd.randrange(6)], {"op": "eval", "p": p, "key": k, "x": 0})
                    L[-1] = ["eval", p] + self.pts[k][0]; ask[-1]["x"] = 1
                    break
        self.L, self.ask = L, ask

    def pairs(self):
        return {(a["key"], a["x"]) for a in self.ask if a and "x" in a}

    def run(self):
        d = core.scratch() / ("ev-%d" % random.randrange(10**12))
        r = core.run_script(self.L, d)
        shutil.rmtree(d, ignore_errors=True)
        return r

    def trace(self):
        r = self.run()
        kind = lambda x: "fin" if x <= 6 else "inf" if x == 7 else "nan"
        tabkeys = sorted(self.pairs())
        tab = []
        for k, x in tabkeys:
            key = self.keys[k]
            if klass(k) == "noisy" or kind(x) != "fin":
                nob = 2 if klass(k) == "bi" else 1
                nc = 0
                if klass(k) == "cons":
                    nc = len(reference(key, self.pts[k][0])["c"])
                tab.append({"y": [0.0] * nob, "c": [0.0] * nc, "feas": 1})
            else:
                tab.append(reference(key, self.pts[k][x - 1]))
        # isolated run of each segment of noisy evaluations
        noisy, cur = [[]], []
        segs = [[]]
        last = r.events[-1]["l"] if r.events else 0
        for a in self.ask:
            if a and a["op"] == "seeds":
                segs.append([])
            elif a and a["op"] == "eval" and klass(a["key"]) == "noisy" and kind(a["x"]) == "fin":
                segs[-1].append((a["key"], a["x"]))
        noisy = []
        for s in segs:
            if not s:
                noisy.append([]); continue
            L = []
            for k, x in s:
                L += open_lines(self.keys[k], 1) + [["eval", 1] + self.pts[k][x - 1], ["pfree", 1], ["sfree", 1]]
            q = isolated(L, "n%d" % random.randrange(10**12))
            noisy.append([[float(v) for v in e["y"]] for e in q.events if e["op"] == "eval"])
        # events
        ev, said = [], {}
        done = {e["l"]: e for e in r.events}
        for j, a in enumerate(self.ask):
            if a is None:
                if j + 1 not in done:
                    break
                continue
            e = done.get(j + 1)
            k = a["key"]
            o = {"op": a["op"], "p": a["p"], "ended": 0, "nobj": 2 if k == 7 else 1, "key": k, "kind": "fin", "noisy": 0, "k": 1}
            if "x" in a:
                o["kind"] = kind(a["x"]); o["k"] = tabkeys.index((k, a["x"])) + 1
                o["noisy"] = 1 if klass(k) == "noisy" else 0
            if a["op"] == "add":
                o["kind"] = a["okind"]
            o["m"] = 0
            if a["op"] in ("about", "type") and e is not None:
                for _ in range(a.get("depth", 0)):      # each observer puts its name around that of the problem
                    e = {**e, "name": re.sub(r"^[\w-]+\((.*)\)$", r"\1", e["name"])}
                says = json.dumps({k: v for k, v in e.items() if k not in ("l", "op")}, sort_keys=True)
                o["m"] = said.setdefault(says, len(said) + 1)
            if e is None:
                o["ended"] = 1
                o.update(n=0, nc=0, hit=0, taint=0, best=0.0, target=0.0, y=[], xsame=1, rc=r.rc)
                ev.append(o)
                break
            o.update(n=e.get("n", 0), nc=e.get("nc", 0), hit=e.get("hit", 0), taint=e.get("taint", 0),
                     best=float(e.get("best", 0)), target=float(e.get("target", 0)), y=[float(v) for v in e.get("y", [])], xsame=e.get("xsame", 1))
            ev.append(o)
        if r.rc != 0 and not (ev and ev[-1]["ended"]):
            ev.append({"op": "crash", "p": 0, "ended": 1, "kind": "fin", "key": 0, "noisy": 0, "k": 1, "nobj": 1, "n": 0, "nc": 0, "hit": 0, "taint": 0,
                       "best": 0.0, "target": 0.0, "y": [], "xsame": 1, "rc": r.rc})
        ended_ok = ev and ev[-1]["ended"] and r.rc == 1
        if ev and ev[-1]["ended"] and not ended_ok:
            ev[-1]["op"] = "crash"
        return ranked({"ev": ev, "tab": tab or [{"y": [0.0], "c": [], "feas": 1}], "noisy": noisy, "worst": sys.float_info.max, "inf": math.inf})


def ranked(t):
    """Doubles -> ranks."""
    vals = set()

    def walk(o):
        if isinstance(o, float):
            if not math.isnan(o):
                vals.add(o)
        elif isinstance(o, dict):
            for v in o.values():
                walk(v)
        elif isinstance(o, list):
            for v in o:
                walk(v)
    walk(t)
    rk = {v: n + 1 for n, v in enumerate(sorted(vals))}

    def conv(o):
        if isinstance(o, float):
            return -1 if math.isnan(o) else rk[o]
        if isinstance(o, dict):
            return {a: conv(b) for a, b in o.items()}
        if isinstance(o, list):
            return [conv(b) for b in o]
        return -2 if o is None else o
    return conv(t)
