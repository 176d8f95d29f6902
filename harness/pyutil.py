"""Replays behaviours generated from the specifications of the Python utilities into the
real classes.  usage: pyutil.py KIND UTILITIES.py IN.json OUT.json"""
import contextlib, importlib.util, io, json, os, re, sys, warnings, signal, resource
resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 29, 1 << 29))

warnings.simplefilter("ignore")


class P:
    """A stand-in for a problem, or the object the classes expect in its place."""
    def __init__(self, f, d, i, e=0, h=False):
        self.id_function, self.dimension, self.id_instance = f, d, i
        self.evaluations, self.final_target_hit = e, h
        self.info = "a valid problem"

    def __call__(self, x):
        return 0.0

    def initial_solution_proposal(self, k):
        return int(k)


def call(fn):
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return fn()
    except Exception as e:
        return "!" + type(e).__name__


def num(v):
    return -9 if isinstance(v, str) else int(v)


def ids(v):
    return [[-9, -9, -9]] if isinstance(v, str) else [[int(x) for x in t] for t in v]


def lst(v):
    return [-9] if isinstance(v, str) else [int(x) for x in v]


def repeater(U, b):
    kw = {} if b["ms"] < 0 else {"min_successes": b["ms"]}
    r = U.ExperimentRepeater(b["mult2"] // 2 if b["mult2"] % 2 == 0 else b["mult2"] / 2, **kw)
    if b["off"]:
        r._dimension_offset = b["off"]
    if b["maxs"] > 0:
        r.max_sweeps = b["maxs"]
    suite = [P(*p) for p in b["suite"]]
    ev = []
    for o in b["ops"]:
        e = dict(o)
        if o["op"] in ("doneP", "track", "init", "query"):
            p = b["suite"][o["p"] - 1]
            e["f"], e["d"], e["inst"] = p
            q = P(*p, e=o.get("e", 0), h=bool(o.get("s", 0))) if o["op"] in ("track", "init") or o.get("tup") == 0 else tuple(p)
        if o["op"] == "done":
            e["r"] = num(call(lambda: r.done(message=bool(o["msg"]))))
        elif o["op"] == "doneP":
            e["r"] = num(call(lambda: r.done(q)))
        elif o["op"] == "track":
            call(lambda: r.track(q))
        elif o["op"] == "init":
            e["r"] = num(call(lambda: r.initial_solution_proposal(q) if o["odds"] < 0 else r.initial_solution_proposal(q, o["odds"])))
        elif o["op"] == "query":
            e["tr"] = lst(call(lambda: r.trials(q)))
            e["su"] = lst(call(lambda: r.successes(q)))
            e["evs"] = lst(call(lambda: r.evaluations(q)))
            e["ins"] = lst(call(lambda: r.instances(q)))
            e["bx"] = num(call(lambda: r.budget_exhausted(q)))
            e["sc"] = num(call(lambda: r.succeeded(q)))
            e["mt"] = num(call(lambda: r.missing_trials(q)))
            e["nt"] = num(call(r.n_trials))
            e["np"] = num(call(lambda: r.n_problems))
            e["ni"] = num(call(r.n_problem_instances))
            e["ntp"] = num(call(lambda: r.n_trials(q)))
            e["nip"] = num(call(lambda: r.n_problem_instances(q)))
            e["doi"] = ids(call(lambda: [(0, a, bool(c)) for a, c in r.data_of_instance(tuple(p))]))
            al = call(lambda: r.all("trials"))
            e["all"] = [[-9, -9, [-9]]] if isinstance(al, str) else [[k[0], k[1], list(map(int, v))] for k, v in al.items()]
        elif o["op"] == "message":
            t = call(r.message_sweep)
            e["r"] = [int(v) for v in re.findall(r"-?\d+", t)] if isinstance(t, str) else [-9]
        elif o["op"] == "remain":
            e["r"] = ids(call(lambda: r.remaining_problems(suite if o["suite"] else None)))
        ev.append(e)
    return {"mult2": b["mult2"], "off": b["off"], "ms": 11 if b["ms"] < 0 else b["ms"], "maxs": b["maxs"] if b["maxs"] > 0 else 10000, "suite": b["suite"], "ev": ev}


def batches(U, b):
    ev, sch = [], []
    for k in b["tries"]:
        k = None if k == 99 else k
        x = call(lambda: U.BatchScheduler(b["n"], k))
        ev.append({"op": "make", "b": 99 if k is None else k, "ok": 0 if isinstance(x, str) else 1})
    sch = [call(lambda: U.BatchScheduler(b["n"], k)) for k in range(b["n"])]
    for f, d, i in b["stream"]:
        ev.append({"op": "ask", "f": f, "d": d, "r": [num(call(lambda: s.is_in_batch(P(f, d, i)))) for s in sch]})
    sf = U.SameFunction()
    for q in b["ids"]:
        nm = "bbob_f%03d_i%02d_d%02d" % tuple(q) if not b["biobj"] else "bbob-biobj_f%02d_i%d_d%d" % tuple(q)
        r = num(call(lambda: sf(nm)))
        ev.append({"op": "same", "f": q[0], "d": q[2], "r": r, "c": num(sf.count)})
    return {"n": b["n"], "ev": ev}


class StubProblem:
    dimension, id, index, info, name = 2, "stub_f001_i01_d02", 0, "valid", "stub"
    number_of_constraints, number_of_objectives, number_of_variables = 0, 1, 2
    initial_solution = lower_bounds = upper_bounds = (0, 0)

    def __init__(self, vals, target):
        self.vals, self.target, self.seen, self.evaluations, self.freed, self.obs = vals, target, [], 0, 0, 0
        self.best_observed_fvalue1 = float("inf")

    def add_observer(self, o):
        self.obs = 1
        return self

    def __call__(self, x):
        if self.freed:
            raise ValueError("freed")
        self.evaluations += 1
        self.seen.append(x)
        v = self.vals[x - 1]
        self.best_observed_fvalue1 = min(v, self.best_observed_fvalue1)
        return v

    @property
    def final_target_hit(self):
        return self.best_observed_fvalue1 <= self.target

    def free(self):
        self.freed += 1


class StubSuite:
    dimensions = [2]

    def __init__(self, vals, target):
        self.vals, self.target, self.made = vals, target, []

    def __getitem__(self, k):
        self.made.append((k, StubProblem(self.vals, self.target)))
        return self.made[-1][1]

    def __len__(self):
        return 1


def nonanytime(U, b):
    s = StubSuite(b["vals"], b["target"])
    n = U.ProblemNonAnytime(s, "observer", b["index"])
    obs = [p for k, p in s.made if p.obs]
    ev = [{"op": "new", "nobs": len(obs), "k": [k for k, _ in s.made], "idx": b["index"]}]
    o = obs[0]
    for c in b["ops"]:
        e = dict(c)
        if c["op"] == "call":
            v = call(lambda: n(c["x"]))
        elif c["op"] == "deliver":
            v = call(lambda: n.delivered(c["x"]))
            v = 0 if v is None else v
        elif c["op"] == "reset":
            v = call(n.reset)
            v = 0 if v is None else v
        elif c["op"] == "free":
            v = call(n.free)
            v = 0 if v is None else v
        e["r"] = -9 if isinstance(v, str) else v
        e["rec"] = list(o.seen)
        e["evals"] = n.evaluations
        e["hit"] = int(bool(n.final_target_hit))
        bo = n.best_observed_fvalue1
        e["best"] = 99 if bo == float("inf") else bo
        e["freed"] = [p.freed for _, p in s.made]
        ev.append(e)
    return {"vals": b["vals"], "target": b["target"], "ev": ev}


ABOUT = ["dimension", "id", "index", "info", "initial_solution", "lower_bounds", "upper_bounds", "name", "number_of_constraints", "number_of_objectives", "number_of_variables"]


def nonanytime_real(U, b):
    """the same with real problems and a real observer; values are replaced by their ranks"""
    import cocoex, glob, shutil, tempfile
    import numpy as np
    d = tempfile.mkdtemp(); old = os.getcwd(); os.chdir(d)
    try:
        suite = cocoex.Suite("bbob", "", "dimensions:2,3 function_indices:%d instance_indices:1-2" % b["fun"])
        rng = np.random.RandomState(b["seed"])
        ref = suite[b["index"] % len(suite)]
        pts = [rng.uniform(-5, 5, ref.dimension) for _ in b["vals"]]
        fv = [ref(x) for x in pts]
        ref.free()
        rank = {v: k + 1 for k, v in enumerate(sorted(set(fv)))}
        vals = [rank[v] for v in fv]
        obs = cocoex.Observer("bbob", "result_folder: R outer_folder: %s number_target_triggers: 100000 base_evaluation_triggers: 1 improvement_delta: 1" % d)
        full = cocoex.Suite("bbob", "instances: 1-2", "")   # the index counts the problems of a suite that is not restricted
        k = b["seed"] % 3
        k = b["seed"] % len(full) if k == 0 else b["seed"] % 6 * 48 if k == 1 else b["seed"] % 28 * 10 + 9
        with U.ProblemNonAnytime(full, obs, k) as q:
            r, t = printed(q.print_progress)
        n = U.ProblemNonAnytime(suite, obs, b["index"] % len(suite))
        ev = [{"op": "new", "nobs": 1, "k": [0, 0], "idx": 0}]
        same = lambda a: int(np.array_equal(getattr(n, a, None), getattr(n.p_observed if a in ("name", "info") else ref, a)))   # those two name the logger also
        ref = suite[b["index"] % len(suite)]
        ev.append({"op": "about", "same": {a: same(a) for a in U.ProblemNonAnytime.inherited_constant_attributes + ABOUT}, "suite": int(n.suite is suite)})
        m = re.fullmatch(r"(?:\nd=(\d+): \n)?f(\d+)_i(\d+) (\n)?", t)
        g = full[k]
        ev.append({"op": "progress", "index": k, "n": len(full), "dims": 6, "d": int(g.dimension), "f": int(g.id_function), "i": int(g.id_instance),
                   "r": [int(m[1] or 0), int(m[2]), int(m[3]), int(m[4] is not None)] if m and r is None else [-9, -9, -9, -9]})
        R = [n.random_solution for _ in range(20)]
        ev.append({"op": "rand", "inside": int(all(len(x) == ref.dimension and np.all(ref.lower_bounds <= x) and np.all(x <= ref.upper_bounds) for x in R)),
                   "differ": int(len({tuple(x) for x in R}) == len(R))})
        ref.free()
        for c in b["ops"]:
            e = dict(c)
            if c["op"] == "call":
                v = call(lambda: n(pts[c["x"] - 1]))
                v = v if isinstance(v, str) else rank.get(v, -7)
            elif c["op"] == "free":
                continue
            else:
                v = call(lambda: n.delivered(pts[c["x"] - 1]) if c["op"] == "deliver" else n.reset())
                v = 0 if v is None else v
            e["r"] = -9 if isinstance(v, str) else v
            e["cnt"] = int(n.p_observed.evaluations)
            e["evals"] = n.evaluations
            e["hit"] = 0
            bo = n.best_observed_fvalue1
            e["best"] = rank.get(bo, 99)
            ev.append(e)
        with n as m:
            same = int(m is n)
        ev.append({"op": "exit", "self": same, "freed": [int(isinstance(call(lambda: q(pts[0])), str)) for q in (n.p_observed, n.p_unobserved)]})
        return {"vals": vals, "target": 0, "ev": ev, "real": 1}
    finally:
        os.chdir(old); shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- settings of an experiment
import collections, types
import numpy as np
VALUES = {"int": 3, "neg": -17, "float": 0.5, "text": "menu", "quote": "it's \"a\"\n", "none": None, "true": True, "list": [1, "a"], "tuple": (1,), "dict": {"k": 2},
          "bytes": b"x", "set": {1}, "complex": 1 + 2j, "nested": {"a": [{"b": (None, "u'")}]}, "inf": float("inf"), "nan": float("nan"), "object": P(1, 2, 3), "function": num,
          "array": np.zeros(2), "listobj": [object()], "ordered": collections.OrderedDict(a=1)}


def label(v):
    for k, w in VALUES.items():
        if type(v) is type(w) and repr(v) == repr(w):
            return k
    return "?"


def printed(fn):
    f = io.StringIO()
    try:
        with contextlib.redirect_stdout(f):
            r = fn()
    except Exception as e:
        return "!" + type(e).__name__, ""
    return r, f.getvalue()


def tokens(t):
    out = []
    for m in re.finditer(r'"([^"]*)"|(:)|(\s+)|([^\s:"]+)', t):
        q, c, b, w = m.groups()
        out.append({"k": "c", "t": ":"} if c else {"k": "b", "t": " "} if b else {"k": "w", "t": w} if w is not None else {"k": "q", "t": q})
    return out


def clock(t):
    t = re.sub(r"[A-Z][a-z]{2}\d+ \d+h\d+:\d+", "TIME", t)
    t = re.sub(r"\d+h\d+:\d+(\+\d+d)?", "TIME", t)
    return re.sub(r"\d\.\de[-+]\d+ seconds", "NUM seconds", t)


class Fun:
    """What a solver sees: values in the order of the calls."""
    def __init__(self, o):
        self.o, self.xs, self.cs = o, [], 0
        self.number_of_constraints, self.number_of_objectives = o["con"], o["nobj"]

    def __call__(self, x):
        if len(self.xs) > 2 * abs(self.o["budget"]) + 1000:
            raise RuntimeError("far beyond the budget")
        self.xs.append([float(v) for v in x])
        return float(self.o["fs"][(len(self.xs) - 1) % len(self.o["fs"])])

    def constraint(self, x):
        k = len(self.xs) - 1 if self.xs[-1] == [float(v) for v in x] else self.xs.index([float(v) for v in x])
        return np.array([-1.0, 0.0 if self.o["ok"][k % len(self.o["ok"])] else 0.25])


def settings(U, b):
    sp = importlib.util.spec_from_file_location("solvers_under_test", os.path.join(os.path.dirname(U.__file__), "solvers.py"))
    S = importlib.util.module_from_spec(sp); sp.loader.exec_module(S)
    import shutil, tempfile
    d = tempfile.mkdtemp(dir=os.getcwd())
    oo, mp, si = U.ObserverOptions(), U.MiniPrint(), U.ShortInfo()
    ev, lastf = [], ""
    for o in b["ops"]:
        e = dict(o)
        if o["op"] == "args":
            texts = []
            for a in o["args"]:
                p = list(a["parts"])
                if p[0] == "batch" and a["slash"]:
                    p[1] = "/".join(a["slash"])
                texts.append("=".join(p))
            known = None if o["known"] == ["none"] else sorted(o["known"])
            r = call(lambda: U.args_to_dict(texts, known if len(ev) % 2 or known is None else dict.fromkeys(known), {"batch": "/".join(o["batch"])} if o["batch"] else None))
            e["err"] = (1 if r == "!ValueError" else 2) if isinstance(r, str) else 0
            e["r"] = [] if isinstance(r, str) else [[k, "%s %r" % (type(v).__name__, v)] for k, v in r.items()]
            for a in e["args"]:
                if a["parts"][0] == "batch" and a["slash"] and not o["batch"]:
                    a["parts"][1] = "/".join(a["slash"])
        elif o["op"] in ("onew", "oupd", "ograce"):
            dd = dict(pairs(o["d"]))
            src = {k: ('"%s"' % v["t"] if v["q"] else int(v["t"]) if v["t"] in ("0", "100") else v["t"]) for k, v in dd.items()}
            keep = dict(src)
            if o["op"] == "onew":
                oo = U.ObserverOptions(src); r = oo
            elif o["op"] == "oupd":
                r = oo.update(src) if len(ev) % 2 else oo.update(**src)
            else:
                r = oo.update_gracefully(src)
            e["same"] = int(r is oo and src == keep)
            e["d"] = [[k, v["t"]] for k, v in dd.items()]
            e["r"] = [[k, str(v).strip('"')] for k, v in oo.items()]
            e["x"] = tokens(oo.as_string)
        elif o["op"] in ("eval", "write"):
            dd = {k: VALUES[v] for k, v in pairs(o["d"])}
            keep = list(dd.items())
            ign = None if o["ign"] == ["std"] else tuple(o["ign"])
            if ign and len(ign) == 1:
                ign = ign[0]
            e["d"] = [[k, v] for k, v in pairs(o["d"])]
            if o["op"] == "eval":
                r = call(lambda: U.dict_to_eval(dd) if ign is None else U.dict_to_eval(dd, ign))
                e["r"] = [["!", "!"]] if isinstance(r, str) else [[k, label(v)] for k, v in r.items()]
            else:
                f = os.path.join(d, "p%d.pydat" % o["file"])
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter("always")
                    r = call(lambda: U.write_setting(dd, (d, "p%d.pydat" % o["file"]) if o["tup"] else f, *([ign] if ign is not None else [])))
                e["warned"] = 9 if isinstance(r, str) else int(len(w) > 0)
            e["same"] = int(len(keep) == len(dd) and all(a == c and v is u for (a, v), (c, u) in zip(keep, dd.items())))
        elif o["op"] == "read":
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                f = os.path.join(d, "p%d.pydat" % o["file"])
                r = call(lambda: U.read_setting(f) if o["warn"] == 2 else U.read_setting(f, o["warn"]))
            e["found"] = int(isinstance(r, dict)) if not isinstance(r, str) else 9
            e["r"] = [[k, label(v)] for k, v in r.items()] if isinstance(r, dict) else []
            e["warned"] = int(len(w) > 0)
        elif o["op"] == "time":
            q = o["q"]
            r = call(lambda: U.ascetime(q // 4 if q % 4 == 0 else q / 4))
            m = re.fullmatch(r"(\d+)h(\d\d):(\d\d)", r)
            e["r"] = [int(v) for v in m.groups()] if m else [-9]
        elif o["op"] == "mini":
            p = types.SimpleNamespace(dimension=o["d"], id_function=o["f"], index=o["index"], final_target_hit=o["hit"])
            r, t = printed(lambda: mp(p, final=bool(o["final"]), restarted=bool(o["restarted"]), final_message={"": False, "yes": True}.get(o["msg"], o["msg"])))
            e["r"] = clock(t) if r is None else str(r)
        elif o["op"] == "short":
            n = "f%03d" % o["f"]
            p = types.SimpleNamespace(dimension=o["d"], id="bbob_%s_i01_d%02d" % (n, o["d"]))
            if len(ev) % 2:
                r, t = printed(lambda: si(p))
                e["r"] = clock(r)
            else:
                r, t = printed(lambda: si.print(p))
                e["r"] = clock(t) if r is None else str(r)
            e["fname"] = n
        elif o["op"] == "ran":
            si.add_evals(o["evals"], o["runs"])
        elif o["op"] == "search":
            f = Fun(o)
            lo, hi = [-5.0 + k for k in range(o["dim"])], [4.0 + 2 * k for k in range(o["dim"])]
            r = call(lambda: S.random_search(f, lo, hi, o["budget"]))
            e["n"] = len(f.xs)
            e["fs"], e["ok"] = ([o[k][j % len(o[k])] for j in range(max(len(f.xs), 1))] for k in ("fs", "ok"))
            e["inside"] = int(all(len(x) == o["dim"] and all(l <= v <= h for l, v, h in zip(lo, x, hi)) for x in f.xs))
            e["r"] = -9 if isinstance(r, str) else 0 if r is None else (f.xs.index([float(v) for v in r]) + 1 if [float(v) for v in r] in f.xs else -1)
        ev.append(e)
    shutil.rmtree(d, ignore_errors=True)
    return {"ev": ev}


def pairs(d):
    return sorted(d.items()) if isinstance(d, dict) else []


class Hang(BaseException):
    pass


def hang(*a):
    raise Hang()


def main():
    signal.signal(signal.SIGVTALRM, hang)
    kind, upath, inp, out = sys.argv[1:5]
    if kind == "nonanytime_real":
        import cocoex.utilities as U
    else:
        sp = importlib.util.spec_from_file_location("utilities_under_test", upath)
        U = importlib.util.module_from_spec(sp); sp.loader.exec_module(U)
    fn = globals()[kind]
    res, behs = [], json.load(open(inp))
    for b in behs:                  # processor time: a busy machine does not matter
        signal.setitimer(signal.ITIMER_VIRTUAL, 60)
        try:
            res.append(fn(U, b))
        except Hang:
            res.append({"crash": "none", "err": "no end within 60 s of processor time"})
            res += [{"skip": 1}] * (len(behs) - len(res))
            break
    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    json.dump(res, open(out, "w"))


main()
