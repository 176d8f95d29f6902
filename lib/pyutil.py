"""Replays behaviours into the Python utilities (harness/pyutil.py)."""
import json, os, subprocess, tempfile
from pathlib import Path
import build, core

UTIL = build.REPO / "build/python/src/cocoex/utilities.py"


def run(kind, behs, pypath=None, chunk=300, py=None):
    py = py or "/opt/vp/venv/bin/python"

    def one(bs):
        d = Path(tempfile.mkdtemp(dir=str(core.scratch())))
        (d / "in.json").write_text(json.dumps(bs))
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        if pypath:
            env["PYTHONPATH"] = str(pypath)
        p = subprocess.run([py, str(build.VERIF / "harness/pyutil.py"), kind, str(UTIL), str(d / "in.json"), str(d / "out.json")],
                           cwd=d, capture_output=True, text=True, env=env, timeout=600)
        if p.returncode or not (d / "out.json").exists():
            return [{"crash": p.returncode, "err": p.stderr[-1500:]}]
        return json.loads((d / "out.json").read_text())

    parts = [behs[a:a + chunk] for a in range(0, len(behs), chunk)]
    out = []
    for bs, r in zip(parts, core.pmap(one, parts)):
        if len(r) == 1 and "crash" in r[0] and len(bs) > 0:
            if len(bs) == 1:
                out.append(r[0])
            else:                               # find the behaviour that ends the process
                out += [one([b])[0] for b in bs]
        else:
            out += r
    return out


def split(c, kind, traces, behs):
    """reports behaviours which ended the process; returns the others"""
    keep = []
    for t, b in zip(traces, behs):
        if "skip" in t:
            continue
        if "crash" in t:
            if not c.violations:
                c.violation("%s: the replay of a behaviour ended with exit code %s: %s" % (kind, t["crash"], t["err"][-300:]), {"what": b, "err": t["err"]})
        else:
            keep.append((t, b))
    return [x for x, _ in keep], [y for _, y in keep]
