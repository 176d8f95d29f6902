"""Replays behaviours into the Python module.  usage: pysuite.py IN.json OUT.json
IN: {"cfgs": [...], "ref": [...], "behs": [...]}"""
import contextlib, gc, io, json, os, resource, shutil, signal, sys, tempfile
resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 29, 1 << 29))
import numpy as np
import cocoex

cocoex.log_level("error")


def g(v):
    return "%.17g" % v


def gl(v):
    return " ".join(g(a) for a in v)


def pt(k, d, ref):
    return np.array([float(t) for t in ref["pts"][str(d)][k - 1]])


def dressed(X, b):
    """the point as an array, a list, a tuple, a view with a stride, backwards, in big-endian order"""
    n = len(X)
    return [X, list(X), tuple(X), np.array([X, np.zeros(n)]).T.copy()[:, 0], X[::-1].copy()[::-1], np.array(X, dtype=">f8"), np.array(X)[None, :][0]][b % 7]


def txt(s):
    return s.decode() if isinstance(s, bytes) else str(s)


def desc(p):
    if p is None:
        return {"id": "none"}
    if isinstance(p, Exception):
        return {"id": "error"}
    if p.id is None:
        return {"id": "none"}
    def idn(fn):
        try:
            return int(fn())
        except ValueError:
            return 0
    return {"id": txt(p.id), "name": txt(p.name), "f": idn(lambda: p.id_function), "d": int(p.dimension), "i": idn(lambda: p.id_instance), "index": int(p.index), "nv": int(p.number_of_variables),
            "no": int(p.number_of_objectives), "nc": int(p.number_of_constraints), "ni": int(p.number_of_integer_variables),
            "lo": gl(p.lower_bounds), "hi": gl(p.upper_bounds), "init": gl(p.initial_solution)}


def att(fn):
    try:
        return fn()
    except Exception as e:
        return e


def val(v):
    if isinstance(v, Exception):
        return "error"
    if v is None:
        return "none"
    return gl(np.atleast_1d(v))


def run(b, J):
    cfg, ref = J["cfgs"][b["cfg"] - 1], J["ref"][b["cfg"] - 1]
    S = cocoex.Suite(cfg[0], cfg[1], cfg[2])
    N, H, ev = len(ref["list"]), [], []
    it, observed, obs, pts = None, None, None, ref
    freed = False
    kept = []          # arrays returned so far, with copies

    def keep(v):
        if isinstance(v, np.ndarray):
            kept.append((v, v.copy()))
            del kept[:-12]
        return v

    def noisy(v):
        return "noisy" if cfg[0] == "bbob-noisy" and v not in ("error", "none") else v

    def give(p):
        if p is not None and not isinstance(p, Exception):
            H.append(p)
        return desc(p)

    proposed = {}

    def proper(p, v):
        """inside the domain; with constraints, around the feasible solution"""
        if len(v) != p.dimension:
            return 0
        lo, hi = p.lower_bounds, p.upper_bounds
        if p.number_of_constraints > 0:
            lo, hi = p.initial_solution - 1, p.initial_solution + 1
        return int(np.all(lo <= v) and np.all(v <= hi))

    def alive_observed():
        return any(h.is_observed and h.id is not None for h in H)

    for o in b["ops"]:
        k, a, x = o["op"], o["a"], o["x"]
        e = {"op": k}
        h = H[a % len(H)] if H else None
        if k in ("call", "badx", "cons", "evals", "pfree", "desc", "observe", "propose", "many") and h is None:
            continue
        if h is not None and k in ("call", "badx", "cons", "evals", "pfree", "desc", "observe", "propose", "many"):
            e["h"] = a % len(H) + 1
        if k == "next":
            e["r"] = give(att(S.next_problem))
        elif k == "iter":
            it = iter(S)
            e["r"] = give(att(lambda: next(it, None)))
        elif k == "inext":
            if it is None:
                continue
            e["r"] = give(att(lambda: next(it, None)))
        elif k == "reset":
            S.reset()
        elif k == "get":
            n = a % (2 * N + 6) - N - 3
            e["n"] = n
            e["r"] = give(att(lambda: S[n] if o["b"] % 2 else S.get_problem(n)))
        elif k == "getid":
            e["id"] = ref["list"][a % N]["id"]
            e["r"] = give(att(lambda: S.get_problem(e["id"]) if o["b"] % 2 else S[e["id"]]))
        elif k == "badid":
            e["op"], e["id"] = "getid", "no_such_f001_i01_d02"
            e["r"] = give(att(lambda: S.get_problem(e["id"])))
        elif k == "fdi":
            q = ref["list"][a % N]
            f, d, i = q["f"], q["d"], q["i"]
            if o["b"] % 5 == 0:
                f, d, i = [(f + 200, d, i), (f, d + 77, i), (f, d, i + 5000), (f, 0, i)][o["b"] // 5 % 4]
            e.update(f=f, d=d, i=i)
            if q["f"] == 0:
                continue
            e["r"] = give(att(lambda: S.get_problem_by_function_dimension_instance(f, d, i)))
        elif k == "call":
            X = pt(x, h.dimension, pts)
            X = dressed(X, o["b"])
            X0 = np.array(X)
            e["x"], e["v"] = x, noisy(val(att(lambda: keep(h(X)))))
            if not np.array_equal(X0, np.array(X)):
                e["v"] = "the point was changed"
        elif k == "badx":
            X = pt(x, h.dimension, pts)
            X = [list(X) + [0.0], X[:-1], [], np.array([X, X])][o["b"] % 4]
            fn = [lambda: h(X), lambda: h.constraint(X), lambda: h.recommend(X)][o["b"] // 4 % 3]
            if o["b"] // 4 % 3 == 1 and h.number_of_constraints == 0:
                continue
            if isinstance(X, np.ndarray) and X.ndim == 2 and X.shape[0] == 0:
                continue
            e["v"] = val(att(fn)); e["v"] = e["v"] if e["v"] == "error" else "accepted"
        elif k == "cons":
            X = dressed(pt(x, h.dimension, pts), o["b"])
            X0 = np.array(X)
            e["x"], e["v"] = x, val(att(lambda: keep(h.constraint(X))))
            if not np.array_equal(X0, np.array(X)):
                e["v"] = "the point was changed"
        elif k == "evals":
            n, c = att(lambda: h.evaluations), att(lambda: h.evaluations_constraints)
            e["n"] = -9 if isinstance(n, Exception) else int(n)
            e["c"] = -9 if isinstance(c, Exception) else int(c)
            bo = att(lambda: h.best_observed_fvalue1)
            e["best"] = "error" if isinstance(bo, Exception) else "max" if bo > 1e300 else g(bo)
            e["init"] = val(att(lambda: keep(h.initial_solution if o["b"] % 2 else h.initial_solution_proposal(0))))
        elif k == "propose":
            r = -1 if o["b"] % 3 else o["a"] % 4
            v = att(lambda: h.initial_solution_proposal(*([] if r < 0 else [r])))
            e["number"] = r
            e.update(same=-9, inside=-9, whole=-9, new=-9)
            if not isinstance(v, Exception) and h.id is not None:
                keep(v)
                e["same"] = int(np.array_equal(v, h.initial_solution))
                e["inside"], e["whole"] = proper(h, v), int(all(t == int(t) for t in v[:h.number_of_integer_variables]))
                e["new"] = int(not any(np.array_equal(v, w) for w in proposed.get(id(h), [])))
                proposed.setdefault(id(h), []).append(np.array(v))
        elif k == "many":
            if h.id is None or h.dimension > 40 or o["x"] > 1:
                continue
            vs = [h.initial_solution_proposal(1 + j) for j in range(200)]
            few = [j for j in range(h.number_of_integer_variables) if h.upper_bounds[j] - h.lower_bounds[j] < 8][:4]
            e["inside"] = int(all(proper(h, v) for v in vs))
            e["lo"], e["hi"] = [int(h.lower_bounds[j]) for j in few], [int(h.upper_bounds[j]) for j in few]
            e["seen"] = [sorted({int(v[j]) for v in vs}) for j in few]
        elif k == "pfree":
            h.free()
        elif k == "with":
            n = a % (2 * N) - N
            e["n"], e["x"] = n, x
            e["v"] = e["v2"] = "error"
            p = att(lambda: S[n])
            if not isinstance(p, Exception):
                with p as q:
                    e["v"] = noisy(val(att(lambda: q(pt(x, q.dimension, pts)))))
                e["v2"] = val(att(lambda: p(pt(x, p.dimension, pts))))
                H.append(p)
        elif k == "desc":
            e["r"] = desc(h)
        elif k == "cur":
            p = S.current_problem
            e["h"] = 0 if p is None else next((j + 1 for j in range(len(H) - 1, -1, -1) if H[j] is p), -1)
            e["n"] = -1 if S.current_index is None else int(S.current_index)
        elif k == "ids":
            q = ref["list"][a % N]
            if q["f"] == 0:
                continue
            seg = txt(q["id"]).split("_")
            kinds = [z for z, bit in (("f", 1), ("i", 2), ("d", 4)) if o["b"] & bit]
            sn = [("_" + t + ("" if t[0] == "d" else "_")) for z in kinds for t in seg[1:] if t[0] == z and t[1:].isdigit()]
            e["c"] = [{"kind": z, "v": q[z]} for z in kinds]
            e["ids"] = [txt(t) for t in S.ids(*sn)]
            e["len"], e["names"] = len(S), [txt(t) for t in S.problem_names]
            e["dims"], e["indices"] = [int(t) for t in S.dimensions], [int(t) for t in S.indices]
        elif k == "observe":
            if freed or (alive_observed() and h.id is not None):
                continue
            if obs is None:
                obs = cocoex.Observer(cfg[3], "result_folder: R")
            n = att(lambda: h.observe_with(obs) if o["b"] % 2 else obs.observe(h))
            e["n"] = -9 if isinstance(n, Exception) else int(h.is_observed)
        elif k == "sfree":
            if freed or alive_observed():
                continue
            S.free(); freed = True
        elif k == "bare":
            if cfg[0] != "bbob":
                continue
            e["k"], e["x"] = a % N + 1, x
            q = ref["list"][a % N]
            B = cocoex.BareProblem("bbob", q["f"], q["d"], q["i"])
            X = [pt(j, q["d"], pts) for j in (1, 2, 3, 4)]
            e["v"] = g(B(X[x - 1] if o["b"] % 2 else list(X[x - 1])))
            e["all"] = [g(v) for v in B(np.array(X))]
            e["fopt"] = g(B.best_value())
            e["short"] = val(att(lambda: B([X[0][:-1], np.append(X[0], 1.0), np.array(X).T if q["d"] != 4 else np.zeros((2, 3))][o["b"] % 3])))
        elif k == "barebad":
            f, d, i = [(0, 2, 1), (25, 2, 1), (1000, 3, 1), (99, 5, 2)][o["b"] % 4]
            e["v"] = val(att(lambda: cocoex.BareProblem("bbob" if a % 3 else "bbob-largescale", f if a % 3 else 1, d, i) and None))
        ev.append(e)
        if any(not np.array_equal(u, w) for u, w in kept):
            ev.append({"op": "a value returned earlier has changed"})
            break
    for h in H:
        h.free()
    if obs is not None:
        obs.free()
    del H
    if not freed:
        S.free()
    gc.collect()
    return {"cfg": b["cfg"], "ev": ev}


def main():
    J = json.load(open(sys.argv[1]))
    out = []
    d = tempfile.mkdtemp(dir=os.getcwd()); out_f = os.path.abspath(sys.argv[2])
    os.chdir(d)
    for b in J["behs"]:
        signal.setitimer(signal.ITIMER_VIRTUAL, 90)   # processor time; the signal ends the process
        with contextlib.redirect_stdout(io.StringIO()):
            out.append(run(b, J))
        with open(out_f + ".n", "w") as f:
            f.write(str(len(out)))
    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    json.dump(out, open(out_f, "w"))
    os.chdir("/")
    shutil.rmtree(d, ignore_errors=True)


main()
