"""Java, Rust and MATLAB interface traces (C28, C29, C31): tables of what the C library answers, behaviours run
through the interface and through the C library, the files of both compared."""
import json, os, random, re, shutil, struct, subprocess, threading
import build, core

# (suite, instances, options, C name as the interface reports it)
CFGS = [("bbob", "instances: 1-2", "function_indices: 1,5,15 dimensions: 2,5"),
        ("bbob", "instances: 1-3", "function_indices: 7,20-24 dimensions: 3"),
        ("bbob", "year: 2018", "function_indices: 8 dimensions: 10 instance_indices: 1-4,15"),
        ("bbob-boxed", "instances: 1,3", "function_indices: 2,19 dimensions: 2,5"),
        ("bbob-constrained", "instances: 1-2", "function_indices: 1,4,17,54 dimensions: 2,5"),
        ("bbob-mixint", "instances: 1-2", "function_indices: 3,9,24 dimensions: 5"),
        ("bbob-largescale", "instances: 1", "function_indices: 1,6,12 dimensions: 20,40"),
        ("toy", "instances: 1", "dimensions: 2,3"),
        ("bbob-biobj", "instances: 1-2", "function_indices: 1,13,55 dimensions: 2,5"),
        ("bbob-biobj-ext", "instances: 3", "function_indices: 2,60,92 dimensions: 3"),
        ("bbob-biobj-mixint", "instances: 1", "function_indices: 4,30,92 dimensions: 5,10")]
OOPT = {"bbob": ["", "base_evaluation_triggers: 1,2 number_target_triggers: 10", "algorithm_name: X algorithm_info: \"some info\"", "log_discrete_as_int: 1"],
        "bbob-biobj": ["", "log_nondominated: final", "log_nondominated: all log_decision_variables: all", "compute_indicators: 0"],
        "toy": ["", "number_target_triggers: 5"], "rw": ["log_time: 0", "log_time: 0 log_variables: all log_only_better: 0"]}
LONG = ["no_such_%s_option_%n: 1", "a" * 700 + ": 1", "100%d: 2"]
MAX = "7fefffffffffffff"


def hexbits(v):
    return "nan" if v != v else "%016x" % struct.unpack(">Q", struct.pack(">d", v))[0]


def vec(v):
    return "[" + ",".join(hexbits(float(q)) for q in v) + "]"


def canon(a):
    """Every not-a-number is the same."""
    return re.sub(r"\b[7f]ff[0-9a-f]{13}\b", lambda m: "nan" if int(m[0], 16) & 0xfffffffffffff else m[0], a).replace(MAX, "max")


class Tables:
    """What the C library answers: the problems of every configuration, six points each."""

    def __init__(self, lang, seed):
        self.lang, self.cfgs = lang, []
        rnd = random.Random("bind %d" % seed)
        for n, c in enumerate(core.pmap(lambda a: self.config(*a), [(k, c, rnd.randrange(10**9)) for k, c in enumerate(CFGS)])):
            self.cfgs.append(c)
        d = core.scratch() / "bind-r"
        L = []
        for q in (1, 2, 3):
            L += [["rnew", q, q * 1000003 - 7]] + [["runi", q]] * 40 + [["rfree", q]]
            for n in range(30):          # a normal number after n uniform ones
                L += [["rnew", q, q * 1000003 - 7]] + [["runi", q]] * n + [["rnorm", q], ["rfree", q]]
        ev = core.run_script(L, d).events
        self.uni, self.norm, at = [], [], 0
        for q in range(3):
            self.uni.append([canon(vec([e["v"]])) for e in ev[at + 1:at + 41]])
            at += 42
            self.norm.append([])
            for n in range(30):
                self.norm[-1].append(canon(vec([ev[at + n + 1]["v"]])))
                at += n + 3

    def config(self, k, cfg, seed):
        rnd, name = random.Random(seed), cfg[0]
        d = core.scratch() / ("bind-c%d" % k)
        head = [["suite", 0, *cfg]]
        r = core.run_script(head + [["next", 0, "-", 0], ["meta", 0], ["type", 0]][:2 if name == "toy" else 3] * 40, d)
        metas = []
        for e in r.events:
            if e["op"] == "next" and e.get("null"):
                break
            if e["op"] == "meta":
                metas.append(e)
            if e["op"] == "type":
                metas[-1]["type"] = e["v"]
        if not metas or r.rc not in (0, -11, 139):
            raise core.ToolError("no problems for %s" % (cfg,))
        if len(metas) == 40:
            raise core.ToolError("configuration too large: %s" % (cfg,))
        out = {"name": name, "np": r.events[0]["np"], "two": int(metas[0]["nobj"] == 2), "list": []}
        fs = sorted({self.fdi(m)[0] for m in metas}, key=[self.fdi(m)[0] for m in metas].index)
        L, jobs = head[:], []
        for m in metas:
            D = m["dim"]
            lo, hi = [float(q) for q in m["lo"]], [float(q) for q in m["hi"]]
            pts = [[rnd.uniform(a, b) for a, b in zip(lo, hi)] for _ in range(3)]
            if m["nobj"] == 1 and name != "toy":
                x = core.run_script(head + [["get", 0, m["index"], 0], ["xopt", 0]], d, name="x%d" % m["index"]).events[-1]
                if x.get("r", 0) is not None:
                    pts[2] = [float(q) for q in x["x"]]
            pts.append([rnd.choice([a - 2.5, b + 3.25, a]) for a, b in zip(lo, hi)])
            pts.append([float("nan") if j == D // 2 else q for j, q in enumerate(pts[0])])
            pts.append([rnd.choice([a, b, (a + b) / 2]) for a, b in zip(lo, hi)])
            for x in pts:
                L.append(["get", 0, m["index"], 0]); L.append(["eval", 0] + [repr(q) for q in x])
                L.append(["pfree", 0])
                if m["ncons"]:
                    L.append(["get", 0, m["index"], 0]); L.append(["cons", 0] + [repr(q) for q in x]); L.append(["pfree", 0])
            jobs.append(pts)
        ids = [[w, 0, q] for w in ("fof", "dof", "iof") for q in range({"fof": len(fs), "dof": 1, "iof": 1}[w])]
        r = core.run_script(L + ids, d, name="e")
        if r.rc or len(r.events) != len(L + ids):
            raise core.ToolError("the tables of %s could not be made: rc %s" % (cfg, r.rc))
        ev = iter([e for e in r.events if e["op"] in ("eval", "cons")])
        out["idx"] = [[w[0], w[2], e["v"]] for w, e in zip(ids, r.events[len(L):])]
        for m, pts in zip(metas, jobs):
            es, gs = [], []
            for x in pts:
                es.append(next(ev)); gs.append(next(ev) if m["ncons"] else None)
            one = m["nobj"] == 1
            best = sorted({float(e["best"]) for e in es if one and float(e["best"]) < 1.7976931348623157e308})
            v = [{"y": canon(vec(e["y"])), "g": canon(vec(g["y"])) if g else "[]", "hit": e["hit"] if one else 0, "dn": e["n"], "dc": e["nc"], "gc": g["nc"] if g else 0,
                  "rank": best.index(float(e["best"])) + 1 if one and float(e["best"]) in best else 1000000} for e, g in zip(es, gs)]
            base = [m["id"], "\0"]
            rest = [str(m["index"]), str(m["dim"]), str(m["nobj"]), str(m["ncons"]), str(m["nint"]), vec(m["lo"]), vec(m["hi"])]
            if self.lang == "java":
                meta = "|".join([m["id"], m["id"], "\0"] + rest + [vec(m["hif"]) if not one else "null"])
            elif self.lang == "matlab":
                meta = "|".join(base + rest[1:] + [vec(m["init"]), vec([m["fopt"]]) if one else vec(m["hif"])])
            else:
                meta = "|".join(base + [m.get("type") or "-"] + rest + [vec(m["init"]), vec([m["fopt"], m["target"]]) if one else "-"])
            pre, post = canon(meta).split("\0")
            out["list"].append({"pre": pre, "name": m["name"], "post": post, "one": int(one), "v": v, "byrank": [canon(vec([b])) for b in best] or ["-"], "index": m["index"],
                                "dim": m["dim"], "ncons": m["ncons"], "fdi": self.fdi(m), "pts": pts})
        return out

    @staticmethod
    def fdi(m):
        a = re.search(r"_f(\d+)_i(\d+)_d(\d+)", m["id"])
        if a:
            return [int(a[1]), int(a[3]), int(a[2])]
        return [m["index"] % 6 + 1, m["dim"], 1]           # toy: all the functions of a dimension in order

    def reference(self, f):
        keep = [{**c, "list": [{k: v for k, v in p.items() if k not in ("pts", "fdi")} for p in c["list"]], "idx": [str(q[2]) for q in c["idx"]]} for c in self.cfgs]
        f.write_text(json.dumps({"lang": self.lang, "cfgs": keep, "uni": self.uni, "norm": self.norm}))

    def conf(self, f):
        f.write_text(json.dumps({"lang": self.lang, "frees": int(self.lang != "java"), "sizes": [len(c["list"]) for c in self.cfgs], "two": [c["two"] for c in self.cfgs], "idx": [len(c["idx"]) for c in self.cfgs]}))


class Job:
    """One behaviour as a script for the interface (B), the same for the C library (C), and the events (E)."""

    def __init__(self, t, hist, lang, rnd):
        self.t, self.lang = t, lang
        B, C, E = [], [], []
        su, ha, cur, ob, nobs, watch = {}, {}, {}, {}, 0, {}
        M, J = lang == "matlab", lang != "rust"

        def hx(x):
            return ["%016x" % struct.unpack(">Q", struct.pack(">d", q))[0] for q in x]

        def say(b, c, **e):
            B.append(b); C.append(c); E.append(e)

        def P(h):
            return t.cfgs[ha[h]["c"]]["list"][ha[h]["k"] - 1]

        def made(sid, h, k):
            if k:
                ha[h] = {"c": su[sid], "k": k, "s": sid}
                say(["meta", h], None, op="meta", h=h)
        if M:
            say(["level", "warning"], ["loglevel", "warning"], op="level", l="warning")
        for a in hist:
            op = a["op"]
            if M and op in ("count", "index") or M and op == "fdi" and not a["k"]:
                continue
            if M and op == "fdi":
                op = "get"
            if op == "suite":
                su[a["s"]] = a["cfg"] - 1; cur[a["s"]] = [0, 0]
                say(["suite", a["s"], *CFGS[a["cfg"] - 1]], ["suite", a["s"], *CFGS[a["cfg"] - 1]], op=op, s=a["s"], cfg=a["cfg"])
            elif op == "clone":
                su[a["t"]] = su[a["s"]]; cur[a["t"]] = [0, 0]
                say(["clone", a["s"], a["t"]], ["suite", a["t"], *CFGS[su[a["s"]]]], op=op, s=a["s"], t=a["t"])
            elif op == "obs":
                nobs += 1
                o = ["obs", a["o"], a["kind"], "result_folder: R%d %s" % (nobs, rnd.choice(OOPT[a["kind"]] + (LONG if M else [])))]
                ob[a["o"]] = "exdata/R%d" % nobs
                say(o, o, op=op, o=a["o"], kind=a["kind"], name=a["kind"])
            elif op == "folder":
                if not J:
                    say(["folder", a["o"]], None, op=op, o=a["o"], folder=ob[a["o"]])
            elif op == "count":
                say(["count", a["s"]], None, op=op, s=a["s"])
            elif op == "index":
                w = t.cfgs[su[a["s"]]]["idx"][a["k"] - 1]
                say(["count", a["s"]], None, op="count", s=a["s"]) if J else say([w[0], a["s"], w[1]], None, op=op, s=a["s"], k=a["k"])
            elif op == "next":
                c, n = cur[a["s"]], len(t.cfgs[su[a["s"]]]["list"])
                k = c[0] + 1 if c[0] < n else 0
                say(["next", a["s"], a["o"] or "-", a["h"]], ["next", a["s"], a["o"] or "-", a["h"]], op=op, s=a["s"], o=a["o"], h=a["h"])
                if J and k:
                    ha.pop(c[1], None)
                    cur[a["s"]] = [k, a["h"]]
                elif J:
                    c[0] = n + 1
                else:
                    c[0] = k or n + 1
                    # the caller owns the problem: in the C library that is a problem asked for by its index
                    C.pop()
                    if k:
                        C.append(["get", a["s"], t.cfgs[su[a["s"]]]["list"][k - 1]["index"], a["h"]])
                    if k and a["o"]:
                        C.append(["add", a["h"], a["o"]])
                made(a["s"], a["h"], k)
            elif op in ("get", "fdi"):
                k = a["k"]
                fdi = t.cfgs[su[a["s"]]]["list"][k - 1]["fdi"] if k else [rnd.choice([0, 93, 1000]), 2, 1]
                c = ["get", a["s"], t.cfgs[su[a["s"]]]["list"][k - 1]["index"] if k else 0, a["h"]] if op == "get" else ["getfdi", a["s"], *fdi, a["h"]]
                say(["fdi"] + c[1:] if op == "fdi" else c, c, op=op, s=a["s"], k=k, h=a["h"])
                made(a["s"], a["h"], k)
            elif op in ("eval", "cons", "rec"):
                p = P(a["h"])
                x = p["pts"][a["p"] - 1]
                w = op
                if op == "rec" and (not J or not p["one"] or any(q != q for q in x)):
                    w = "eval"
                if op == "cons" and not p["ncons"]:
                    w = "eval"
                say([w, a["h"]] + hx(x), [w, a["h"]] + [repr(q) for q in x], op=w, h=a["h"], p=a["p"])
            elif op == "short" and M:
                p = P(a["h"])
                x = p["pts"][a["p"] - 1]
                w = {"evaly": "nargs", "consy": rnd.choice(["type", "shape"])}.get(a["w"], a["w"])
                if w == "cons" and not p["ncons"]:
                    w = "eval"
                if w == "shape" and (len(x) % 2 or len(x) < 4):
                    w = "type"
                x = x if w in ("nargs", "type", "shape") else x[:-1] if a["d"] < 0 else x + [0.0]
                say([w, a["h"]] + hx(x), None, op=op, h=a["h"], w=w, d=a["d"])
            elif op == "short":
                p = P(a["h"])
                x = p["pts"][a["p"] - 1]
                w = a["w"]
                if w == "rec" and not J:
                    w = "eval"
                if w == "cons" and not p["ncons"]:
                    w = "eval"
                if J or w == "consy" and not p["ncons"]:
                    w = w[:4]
                if w == "cons" and not p["ncons"]:
                    w = "eval"
                x = x if w[-1] == "y" else x[:-1] if a["d"] < 0 else x + [0.0]
                say([w, a["h"]] + ([a["d"]] if w[-1] == "y" else []) + hx(x), None, op=op, h=a["h"], w=w, d=a["d"])
            elif op in ("state", "meta"):
                say([op, a["h"]], None, op=op, h=a["h"])
            elif op in ("add", "rem", "restart"):
                b = [op, a["h"], a["o"]] if op != "restart" else [op, a["o"], a["h"]]
                say(b, b, op=op, h=a["h"], o=a["o"])
            elif op == "pfree":
                ha.pop(a["h"])
                say(["pfree", a["h"]], ["pfree", a["h"]], op=op, h=a["h"])
            elif op == "ofree":
                say(["ofree", a["o"]], ["ofree", a["o"]], op=op, o=a["o"])
            elif op == "sfree":
                if J:
                    ha.pop(cur[a["s"]][1], None)
                say(["sfree", a["s"]], ["sfree", a["s"]], op=op, s=a["s"])
                su.pop(a["s"])
            elif op == "bfree":
                ha.pop(cur[a["s"]][1], None)
                if M:
                    say(["ofree", a["o"]], ["ofree", a["o"]], op="ofree", o=a["o"]); say(["sfree", a["s"]], ["sfree", a["s"]], op="sfree", s=a["s"])
                else:
                    B.append(["bfree", a["s"], a["o"]]); C.append(["ofree", a["o"]]); C.append(["sfree", a["s"]])
                    E.append(dict(op=op, s=a["s"], o=a["o"]))
                su.pop(a["s"])
            elif op == "level":
                say(["level", a["l"]], ["loglevel", a["l"]], op=op, l=a["l"])
            elif op == "rnew":
                say([op, a["g"], a["seed"] * 1000003 - 7], None, op=op, g=a["g"], seed=a["seed"])
            elif op in ("runi", "rnorm", "rfree"):
                say([op, a["g"]], None, op=op, g=a["g"])
            else:
                raise core.ToolError("unknown step %s" % a)
        self.B, self.E = B, E
        self.C = [c for c in C if c]
        if not J:          # the interface releases what is left in this order
            self.C += [["pfree", h] for h in sorted(ha)]
        self.left = None

    def trace(self):
        d = core.scratch() / ("bi-%d" % random.Random().randrange(10**12))
        b, c = d / "b", d / "c"
        b.mkdir(parents=True)
        r = core.run_script(self.C, c)
        ev = []
        if r.rc or len(r.events) != len(self.C):
            self.left = "the C library ended: rc %s after %s" % (r.rc, self.C[len(r.events) - 1][:4] if r.events else "")
            shutil.rmtree(d, ignore_errors=True)
            return {"ev": []}
        if self.lang == "java":
            cp, lib = build.java()
            cmd = ["java", "-XX:TieredStopAtLevel=1", "-XX:+UseSerialGC", "-Xmx256m", "-Xcheck:jni", "-XX:ErrorFile=err.log", "-Djava.library.path=" + str(cp), "-cp", str(cp), "Interp"]
        else:
            cmd = [str(build.rust() if self.lang == "rust" else build.matlab())]
        rc, said, err = core.run_program(["prlimit", "--fsize=%d" % core.MAXFILE, *cmd], b, dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99"), 180,
                                         "".join("\t".join(map(str, l)) + "\n" for l in self.B))
        ans = [canon(l[3:]) for l in (b / "answers").read_text(errors="replace").splitlines() if l.startswith("=> ")] if (b / "answers").exists() else []
        for e, a in zip(self.E, ans):
            ev.append({**e, "r": re.sub(r"^exception.*", "exception", a) if e["op"] == "short" else a})
        if rc or len(ans) != len(self.E):
            ev.append({"op": "died", "rc": rc, "err": err[-300:], "at": str(self.B[min(len(ans), len(self.B) - 1)])[:150], "r": ""})
        else:
            ev.append({"op": "files", "r": self.compare(b, c)})
            if self.lang == "matlab":       # what is printed: nothing else, and the warnings of the library (the interface may cut them)
                w = lambda f: [l[:400] for l in re.findall(r"COCO WARNING.*", f)]
                u, v = w((b / "messages").read_text(errors="replace")), w(r.stderr)
                ev.append({"op": "files", "r": "same" if u == v and not said else ("printed: %r" % said[:60] if said else "warnings differ: %r %r" % next(((x[:200], y[:200]) for x, y in zip(u + [""] * len(v), v + [""] * len(u)) if x != y)))})
        shutil.rmtree(d, ignore_errors=True)
        return {"ev": ev}

    @staticmethod
    def compare(b, c):
        def tree(q):
            return {str(f.relative_to(q)): f.read_bytes() for f in sorted((q / "exdata").rglob("*")) if f.is_file()} if (q / "exdata").exists() else {}
        x, y = tree(b), tree(c)
        if set(x) != set(y):
            return "files differ: " + str(sorted(set(x) ^ set(y))[:4])
        for k in x:
            if x[k] != y[k]:
                u, v = x[k].decode(errors="replace").splitlines(), y[k].decode(errors="replace").splitlines()
                j = next((q for q in range(min(len(u), len(v))) if u[q] != v[q]), min(len(u), len(v)))
                return "%s differs at line %d: %r, %r" % (k, j + 1, (u + ["(end)"])[j][:120] if j <= len(u) else "", (v + ["(end)"])[j][:120])
        return "same"
