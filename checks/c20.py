"""C20: the Python interface agrees with the library."""
import json, os, subprocess, tempfile
from pathlib import Path
import build, core, suitetr

MC = "SPECIFICATION Spec\nCONSTANTS N=2 MaxH=%d MaxE=1\nINVARIANTS InOrder CurIsCur KnownPos\nPROPERTY Mono\nCHECK_DEADLOCK FALSE\n"
GEN = "SPECIFICATION Spec\nCONSTANTS Len1=%d NCfg=%d\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
CFGS = [("bbob", "", "dimensions:2,5 function_indices:1,3,8,21 instance_indices:1-3", "bbob"),
        ("bbob", "instances: 4,7,71-73", "dimensions:3,40 function_indices:6-7,24", "bbob"),
        ("bbob", "", "dimensions:2,3 function_indices:1 instance_indices:1,1", "bbob"),
        ("bbob-biobj", "", "dimensions:2,3 function_indices:1,12,55 instance_indices:1-2", "bbob-biobj"),
        ("bbob-biobj-ext", "", "dimensions:5 function_indices:60-62,92 instance_indices:3", "bbob-biobj"),
        ("bbob-constrained", "", "dimensions:2,3 function_indices:1,2,7,54 instance_indices:1-2", "bbob"),
        ("bbob-mixint", "", "dimensions:5,10 function_indices:1,15 instance_indices:1-2", "bbob"),
        ("bbob-biobj-mixint", "", "dimensions:5 function_indices:1,40,92 instance_indices:1-2", "bbob-biobj"),
        ("bbob-largescale", "", "dimensions:20,40 function_indices:1,20 instance_indices:1-2", "bbob"),
        ("bbob-boxed", "", "dimensions:2,5 function_indices:1,5,20 instance_indices:2-3", "bbob"),
        ("bbob-noisy", "", "dimensions:2,3 instance_indices:1", "bbob")]
NOISY = 11
PTS = {}


def points(d):
    """four points of a dimension (the same for every problem)"""
    if d not in PTS:
        PTS[d] = [["%.17g" % (((7 * j + 3 * k + 1) % 11 - 5) * (0.37 + 0.11 * k)) for j in range(d)] for k in range(4)]
    return PTS[d]


def reference(work):
    """the library's own view of the suites"""
    def one(q):
        n, i, o, _ = CFGS[q]
        L = [["suite", 1, n, i, o], ["iter", 1, "-", 1, 100000]]
        r = core.run_script(L, work / ("a%d" % q))
        np = sum(1 for e in r.events if e["op"] == "iter" and not e["null"])
        L = [["suite", 1, n, i, o]]
        dims = [e["dim"] for e in r.events if e["op"] == "iter" and not e["null"]]
        nc = [e["ncons"] for e in r.events if e["op"] == "iter" and not e["null"]]
        idx = [e["index"] for e in r.events if e["op"] == "iter" and not e["null"]]
        for k in range(np):
            L += [["get", 1, idx[k], 2], ["meta", 2]] + [["eval", 2, *x] for x in points(dims[k])] + [["cons", 2, *x] for x in points(dims[k]) if nc[k]] + [["pfree", 2]]
        L.append(["sfree", 1])
        r = core.run_script(L, work / ("b%d" % q))
        if r.rc or r.partial:
            raise core.ToolError("the library cannot provide the reference for %s: %s" % (CFGS[q], r.stderr[-300:]))
        out = []
        for e in r.events:
            if e["op"] == "meta":
                f, d, ii = suitetr.ident(e)
                if n == "toy":
                    f = ii = 0
                out.append({"id": e["id"], "name": e["name"], "f": f, "d": e["dim"], "i": ii, "index": e["index"], "nv": e["dim"], "no": e["nobj"], "nc": e["ncons"], "ni": e["nint"],
                            "lo": " ".join(e["lo"]), "hi": " ".join(e["hi"]), "init": " ".join(e["init"]), "fopt": e.get("fopt", ""), "y": [], "c": []})
            elif e["op"] == "eval":
                out[-1]["y"].append(" ".join(e["y"]))
            elif e["op"] == "cons":
                out[-1]["c"].append(" ".join(e["y"]))
        for p in out:
            if n == "bbob-noisy":
                p["y"] = ["noisy"] * 4          # the noise depends on the evaluations before; see C05
            v = [float(y) for y in p["y"]] if p["no"] == 1 and p["nc"] == 0 and n != "bbob-noisy" else []
            p["rank"] = [sorted(set(v)).index(z) + 1 for z in v]
        return {"list": out, "pts": {str(d): points(d) for d in set(dims)}}
    return core.pmap(one, range(len(CFGS)))


def replay(behs, ref, work, chunk=25):
    env = dict(os.environ, PYTHONPATH=str(build.cocoex()), PYTHONDONTWRITEBYTECODE="1")

    def one(bs):
        d = Path(tempfile.mkdtemp(dir=str(work)))
        (d / "in.json").write_text(json.dumps({"cfgs": CFGS, "ref": ref, "behs": bs}))
        p = subprocess.run(["/opt/vp/venv/bin/python", str(build.VERIF / "harness/pysuite.py"), "in.json", "out.json"], cwd=d, capture_output=True, text=True, env=env, timeout=800)
        if p.returncode or not (d / "out.json").exists():
            if len(bs) == 1:
                return [{"cfg": bs[0]["cfg"], "ev": [{"op": "the process ended", "rc": p.returncode, "err": p.stderr[-600:]}]}]
            r = []
            for b in bs:
                r += one([b])
                if r[-1]["ev"] and r[-1]["ev"][-1]["op"] == "the process ended":
                    break                       # one is enough
            return r + [{"cfg": b["cfg"], "ev": []} for b in bs[len(r):]]
        return json.loads((d / "out.json").read_text())

    parts = [behs[a:a + chunk] for a in range(0, len(behs), chunk)]
    return [t for r in core.pmap(one, parts) for t in r]


def main():
    c = core.Check("C20", assumptions=["values of the library are those of the driver built from the same sources"])
    c.model("PySuiteMC", MC % c.n(4, 5), workers=8)
    work = core.scratch() / "c20"; work.mkdir()
    build.driver(); build.cocoex()
    ref = reference(work)
    rf = work / "ref.json"; rf.write_text(json.dumps(ref))
    behs = []
    for k, (n, num) in enumerate([(12, c.n(400, 3000)), (40, c.n(300, 3000)), (150, c.n(30, 400))]):
        b, r = core.behaviours("PySuiteGen", GEN % (n, len(CFGS)), num, n + 2, core.SEED + 200 + k)
        behs += b
    traces = replay(behs, ref, work)
    c.sample(traces[0])
    c.conform("PySuiteTrace", traces, remake=lambda q: replay([behs[q]], ref, work)[0], describe=lambda q: [CFGS[behs[q]["cfg"] - 1], behs[q]["ops"]], env={"REF": str(rf)}, chunk=120)
    return c.finish()
