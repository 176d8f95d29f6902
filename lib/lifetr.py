"""Lifecycle traces (C15): permitted histories run on the sanitized library."""
import random, re, shutil
import core

SUITES = {"single": [("bbob", 24, [2, 3, 5]), ("bbob-noisy", 30, [2, 5]), ("bbob-boxed", 24, [2]), ("bbob-mixint", 24, [5]), ("toy", 6, [2, 3]), ("bbob-largescale", 24, [20]), ("bbob", 24, [10])],
          "cons": [("bbob-constrained", 54, [2, 3])],
          "bi": [("bbob-biobj", 55, [2, 3]), ("bbob-biobj-ext", 92, [2]), ("bbob-biobj-mixint", 92, [5])]}
OPTS = {"bbob": ["", "base_evaluation_triggers: 1,2 number_target_triggers: 10", "algorithm_name: X algorithm_info: \"some info\"", "prefix: pre log_discrete_as_int: 1", "lin_target_precision: 1 number_target_triggers: 0"],
        "bbob-biobj": ["", "log_nondominated: final", "log_nondominated: none compute_indicators: 1", "log_decision_variables: all", "produce_all_data: 1", "log_nondominated: final compute_indicators: 0"],
        "rw": ["", "log_variables: all log_time: 0", "log_only_better: 0"], "toy": ["", "number_target_triggers: 5"]}


def died(r, d, L):
    rep = "".join(f.read_text(errors="replace") for f in sorted(d.glob("*.asan.*")) + sorted(d.glob("*.ubsan.*")))
    head = re.search(r"(ERROR: .*|runtime error.*)", rep)
    where = re.findall(r"#\d+ \S+ in (\w+)", rep)[:4]
    return {"op": "died", "rc": r.rc, "report": (head.group(1)[:160] if head else r.stderr[-200:]), "where": where, "at": str(r.partial or L[len(r.events) - 1 if r.rc and len(r.events) == len(L) else min(len(r.events), len(L) - 1)])[:120]}


class Run:
    """a script of another specification, run instrumented"""
    def __init__(self, L):
        self.L = L

    def trace(self):
        d = core.scratch() / ("ls-%d" % random.Random().randrange(10**12))
        r = core.run_script(self.L, d, san=True)
        ev = [died(r, d, self.L)] if r.rc or len(r.events) < len(self.L) else []
        shutil.rmtree(d, ignore_errors=True)
        return {"ev": ev}


class Job:
    def __init__(self, hist, rnd):
        self.rnd, self.skip = rnd, None
        L, ask = [], []
        su, pr, ob, nobs, it = {}, {}, {}, 0, {}

        def num(s):
            return su[s][1] + (100 if su[s][0] == "bbob-noisy" else 0)

        def h(p):
            return p if p < 10 else 30 + p
        # also other objects with a life of their own
        extra = {}
        for a in hist:
            op = a["op"]
            if op == "nop":
                continue
            if rnd.random() < .05 and not extra.get("arch"):
                s, nf, ds = rnd.choice(SUITES["bi"])
                L.append(["arch", 0, s, rnd.randint(1, nf), rnd.choice(ds), rnd.randint(1, 5)]); ask.append(None); extra["arch"] = True
            if extra.get("arch") and rnd.random() < .1:
                L.append(rnd.choice([["aadd", 0, repr(rnd.uniform(-500, 500)), repr(rnd.uniform(-500, 500)), "t%d" % len(L)], ["anext", 0], ["ahv", 0], ["anum", 0]])); ask.append(None)
            if extra.get("arch") and rnd.random() < .02:
                L.append(["afree", 0]); ask.append(None); extra["arch"] = False
            if op == "suite" and rnd.random() < .15:      # asking for a suite that does not exist leaves nothing behind
                L.append(["suite", 2, *rnd.choice([("bbob", "", "dimensions: 2-5"), ("bbob-biobj", "", "dimensions: 4"), ("toy", "", "dimensions: 2;3"), ("bbob-constrained", "instances: 1", "dimensions: 7 function_indices: 1"), ("bbob-mixint", "", "dimensions: 1,999")])])
                L.append(["sfree", 2]); ask += [None, None]
            if op == "suite":
                name, nf, ds = rnd.choice(SUITES[a["kind"]])
                f, d = rnd.randint(1, nf), rnd.choice(ds)
                # also instances that are not in the table of the bi-objective suites
                i0 = rnd.choice([1, 1, 1, 14, 16, 30]) if name in ("bbob-biobj", "bbob-biobj-mixint", "bbob") else 1
                su[a["s"]] = (name, f, d, i0)
                L.append(["suite", a["s"], name, "instances: %d-%d" % (i0, i0 + a["n"] - 1) if a["n"] > 1 else "instances: %d" % i0 if name != "toy" else "instances: 1", "function_indices: %d dimensions: %d" % (f, d)])
                if name == "toy":
                    su[a["s"]] = (name, 1, d, 1)
                    L[-1] = ["suite", a["s"], name, "instances: 1", "function_indices: 1-%d dimensions: %d" % (a["n"], d)]
                ask.append({**a})
                it[a["s"]] = 0
            elif op == "sfree":
                L.append(["sfree", a["s"]]); ask.append({**a})
            elif op == "obs":
                nobs += 1
                ob[a["o"]] = "R%d" % nobs
                L.append(["obs", a["o"], a["kind"], "result_folder: R%d %s" % (nobs, rnd.choice(OPTS[a["kind"]]))]); ask.append({**a, "folder": "R%d" % nobs})
            elif op == "ofree":
                L.append(["ofree", a["o"]]); ask.append({**a})
            elif op == "get":
                L.append(["getfdi", a["s"], num(a["s"]), su[a["s"]][2], su[a["s"]][3], a["p"]]); ask.append({**a, "at": (num(a["s"]), su[a["s"]][2], su[a["s"]][3])})
                pr[a["p"]] = su[a["s"]]
            elif op == "next":
                L.append(["next", a["s"], a["o"] if a["o"] >= 0 else "-", h(10 + a["s"])])
                it[a["s"]] += 1
                ask.append({**a, "at": (it[a["s"]], su[a["s"]][2], 1) if su[a["s"]][0] == "toy" else (num(a["s"]), su[a["s"]][2], su[a["s"]][3] + it[a["s"]] - 1)})
                pr[10 + a["s"]] = su[a["s"]]
            elif op in ("add", "rem"):
                L.append([op, a["p"], a["o"]]); ask.append({**a})
            elif op == "eval":
                d = pr[a["p"]][2]
                for _ in range(rnd.choice([1, 1, 10]) if pr[a["p"]][0].startswith("bbob-biobj") else 1):
                    x = [repr(rnd.uniform(-6, 6)) for _ in range(d)]
                    L.append(["eval", h(a["p"])] + x); ask.append({**a})
                if pr[a["p"]][0] == "bbob-constrained" and rnd.random() < .4:
                    L.append(["cons", h(a["p"])] + x); ask.append({"op": "info", "p": a["p"]})
            elif op == "rec":
                d = pr[a["p"]][2]
                L.append(["rec", h(a["p"])] + [repr(rnd.uniform(-5, 5)) for _ in range(d)]); ask.append({**a})
            elif op == "info":
                d = pr[a["p"]][2]
                L.append(["eval", h(a["p"])] + [{4: "inf", 5: "nan"}[a["q"]]] * d if a["q"] > 3 else [{1: "meta", 2: "pinfo", 3: "pstate"}[a["q"]], h(a["p"])]); ask.append({**a})
            elif op == "pfree":
                L.append(["pfree", a["p"]]); ask.append({**a})
        if extra.get("arch"):
            L.append(["afree", 0]); ask.append(None)
        self.L, self.ask = L, ask

    def trace(self):
        d = core.scratch() / ("li-%d" % random.Random().randrange(10**12))
        r = core.run_script(self.L, d, san=True)
        ev, prob, folder, cur, kinds, live, ids = [], {}, {}, {}, {}, {}, 0
        seen = {}

        def start(p, o):
            nonlocal ids
            ids += 1
            seen.setdefault((folder[o], *prob[p]), []).append([ids, 0, kinds[o]])
            live.setdefault(p, []).append(seen[(folder[o], *prob[p])][-1])
        for e in r.events:
            a = self.ask[e["l"] - 1]
            if a is None:
                continue
            rec = {k: v for k, v in a.items() if k not in ("folder", "at")}
            rec["ok"] = e.get("ok", 1)
            op = a["op"]
            if e.get("skip"):
                rec["ok"] = 0
            if op == "obs":
                folder[a["o"]], kinds[a["o"]] = a["folder"], a["kind"]
            elif op == "get":
                rec["ok"] = int(e.get("id") is not None)
                prob[a["p"]] = a["at"]; live[a["p"]] = []
            elif op == "next":
                rec["end"] = int(e.get("id") is None)
                if not rec["end"]:
                    p = 10 + a["s"]
                    prob[p] = a["at"]; live[p] = []
                    if a["o"] >= 0:
                        start(p, a["o"])
            elif op == "add":
                start(a["p"], a["o"])
            elif op == "rem" and live.get(a["p"]):
                live[a["p"]].pop()
            elif op == "eval":
                for s in live.get(a["p"], []):
                    s[1] += 1
            ev.append(rec)
        if len(r.events) < len(self.L) or r.rc:
            ev.append(died(r, d, self.L))
        else:
            ev.append({"op": "disk", "ok": 1, "entries": self.disk(d, seen)})
        shutil.rmtree(d, ignore_errors=True)
        return {"ev": ev}

    def disk(self, d, seen):
        out = []
        got = {}
        for f in sorted((d / "exdata").rglob("*.info")) if (d / "exdata").exists() else []:
            fo = f.relative_to(d / "exdata").parts[0]
            fn = dm = None
            for l in f.read_text().splitlines():
                m = re.search(r"(?:funcId|function) = *'?(\d+)'?", l)
                if m:
                    fn = int(m[1])
                m = re.search(r"(?:DIM|dim) = *(\d+)", l, re.I)
                if m:
                    dm = int(m[1])
                for t in re.findall(r", (\d+):(\d+)", l):
                    if int(t[1]) > 0:
                        got.setdefault((fo, fn, dm, int(t[0])), []).append(int(t[1]))
        # without indicators the archive file has the number of evaluations
        for f in sorted((d / "exdata").rglob("*.adat")) if (d / "exdata").exists() else []:
            fo = f.relative_to(d / "exdata").parts[0]
            m = re.search(r"_f(\d+)_i(\d+)_d(\d+)_", f.name)
            if m and not list((d / "exdata" / fo).rglob("*.info")):
                for n in re.findall(r"% evaluations = (\d+)", f.read_text()):
                    if int(n):
                        got.setdefault((fo, int(m[1]), int(m[3]), int(m[2])), []).append(int(n))
        for k, s in seen.items():
            s = [t for t in s if t[1] > 0 and t[2] in ("bbob", "bbob-biobj")]
            g = got.pop(k, [])
            for t, n in zip(s, g):
                out.append({"id": t[0], "n": n})
            out += [{"id": -1, "n": n} for n in g[len(s):]]
        out += [{"id": -2, "n": n} for g in got.values() for n in g]
        return out
