"""Suite scripts and traces (C01-C03): option strings, ids, events."""
import re
import core



def rng(r):
    if r[0] == 0 and r[1] == 0:
        return "-"
    if r[0] == 0:
        return "-%d" % r[1]
    if r[1] == 0:
        return "%d-" % r[0]
    return "%d" % r[0] if r[0] == r[1] else "%d-%d" % tuple(r)


def render(opts, rnd):
    out = []
    for o in opts:
        v = str(o["y"]) if o["k"] == "year" else rnd.choice([",", ",", ", "]).join(rng(r) for r in o["r"])
        if o["k"] == "year" and o["y"] == 0:
            v = "0000"
        out.append(o["k"] + rnd.choice([": ", ":", " : " if o["k"] != "year" else ": "]) + v)
    return rnd.choice([" ", " ", "  "]).join(out)


def ident(e):
    """(function, dimension, instance) a problem's identifier names; toy ids carry no instance."""
    m = re.search(r"_f0*(\d+)_i0*(\d+)_d0*(\d+)$", e["id"])
    if m:
        return int(m[1]), int(m[3]), int(m[2])
    m = re.match(r"(.*?)_d0*(\d+)$", e["id"])
    if m:
        return 0, int(m[2]), 0
    return -1, -1, -1


def script(hist, rnd, iter_max=0):
    """Driver script of a behaviour, and for each line what it asks."""
    L, ask = [], []
    slot = 10
    for h in hist:
        op = h["op"]
        if op == "suite":
            L.append(["suite", h["s"], h["name"], render(h["inst"], rnd), render(h["opts"], rnd)])
        elif op == "next":
            L.append(["next", h["s"], "-", h["s"]])
        elif op == "get":
            L.append(["get", h["s"], h["n"], slot])
        elif op == "getfdi":
            L.append(["getfdi", h["s"], h["af"], h["ad"], h["ai"], slot])
        elif op == "enc":
            L.append(["enc", h["s"], h["af"], h["ad"], h["ai"]])
        elif op in ("dec", "fof", "dof", "iof"):
            L.append([op, h["s"], h["n"]])
        elif op == "iter":
            L.append(["iter", h["s"], "-", h["s"], h["max"]])
        elif op == "sfree":
            L.append(["sfree", h["s"]])
        ask.append(h)
        if op in ("get", "getfdi"):
            L.append(["pfree", slot]); ask.append(None)
    return L, ask


def trace(res, ask):
    """Events for SuiteTrace.tla from a driver result."""
    ev, names, ended = [], {}, {}
    for e in res.events:
        h = ask[e["l"] - 1]
        if h is None or e.get("skip"):
            continue
        h = dict(h)
        if e["op"] == "suite":
            names[h["s"]] = h
            ended[h["s"]] = False
            h["ok"] = e["ok"]; h["np"] = e.get("np", 0)
            if not e["ok"]:
                pass
        elif e["op"] in ("next", "iter", "get", "getfdi"):
            if e["op"] == "iter":
                h.pop("max", None); h["op"] = "next"
            if h["op"] == "next" and ended.get(h["s"]):
                continue  # behaviour after the end of the iteration is not specified
            h["null"] = e["null"]
            f = d = i = idx = 0
            if not e["null"]:
                f, d, i = ident(e)
                if d != e["dim"]:
                    d = -1
                idx = e["index"]
                if names[h["s"]]["name"] == "toy":
                    nm = re.sub(r"_d0*\d+$", "", e["id"])
                    f = TOYF.get(nm, -1)
                    i = None  # filled below: toy problems do not show their instance
            elif h["op"] == "next":
                ended[h["s"]] = True
            h.update(f=f, d=d, i=i, idx=idx)
        elif e["op"] in ("enc", "fof", "dof", "iof"):
            h["v"] = e["v"]
        elif e["op"] == "dec":
            h.update(f=e["f"], d=e["d"], i=e["i"])
        if h.get("i", 0) is None:
            h["i"] = TOYI
        ev.append(h)
    if res.rc != 0 or res.partial:
        ev.append({"op": "ended", "rc": res.rc, "s": 0, "err": res.stderr[-200:]})
    return ev


TOYF = {"sphere": 1, "ellipsoid": 2, "rastrigin": 3, "bueche-rastrigin": 4, "linear_slope": 5, "rosenbrock": 6}
TOYI = -9
