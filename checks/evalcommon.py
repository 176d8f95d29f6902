import random
import build, core, evaltr

MC = ("SPECIFICATION Spec\nCONSTANTS MaxOps=%d\nINVARIANTS Counted BestIsMin NeverCheats\nPROPERTIES HitStays TaintStays\nCHECK_DEADLOCK FALSE\n")


def go(c, num, depth, obs, taint, noise, seed, tail_taint=False, mc=6):
    build.driver()
    c.model("EvalMC", MC % mc)
    cfg = "SPECIFICATION Spec\nCONSTANTS Depth=%d WithObs=%s WithTaint=%s WithNoise=%s\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % (
        depth, str(obs).upper(), str(taint).upper(), str(noise).upper())
    behs, r = core.behaviours("EvalGen", cfg, num, depth + 1, seed)
    c.states += r.distinct; c.transitions += r.generated
    jobs = [evaltr.Job(b, random.Random("%d/%d/%s" % (seed, k, c.id)), tail_taint) for k, b in enumerate(behs)]
    traces = core.pmap(lambda j: j.trace(), jobs)
    for t in traces[:2]:
        c.sample({"ev": t["ev"][:8]})
    c.notes["events"] = c.notes.get("events", 0) + sum(len(t["ev"]) for t in traces)
    c.notes["problems"] = len({tuple(k) for j in jobs for k in j.keys.values()})
    c.conform("EvalTrace", traces, remake=lambda k: jobs[k].trace(),
              describe=lambda k: {"keys": {str(a): b for a, b in jobs[k].keys.items()}, "script": jobs[k].L}, chunk=60)


def sweep(c, seed, per=1):
    """Every function of every suite once (per times): groups of live problems evaluated in turns at points that resemble each other."""
    rnd = random.Random("sweep %d" % seed)
    pool = {"single": [], "cons": [], "bi": []}
    for s, ds, cl in [("bbob", [3, 5, 10], "single"), ("bbob-boxed", [3, 5], "single"), ("bbob-mixint", [5, 10], "single"), ("toy", [3, 5], "single"),
                      ("bbob-largescale", [20, 40], "single"), ("bbob-constrained", [2, 3, 5], "cons"), ("bbob-biobj", [3, 5], "bi"),
                      ("bbob-biobj-ext", [3, 5], "bi"), ("bbob-biobj-mixint", [5], "bi")]:
        for f in range(1, evaltr.NF[s] + 1):
            for _ in range(per):
                pool[cl].append((s, f, rnd.choice(ds), 1 if s == "toy" else rnd.randrange(1, 16)))
    jobs = []
    for cl, ids in (("single", [1, 2, 3, 4]), ("cons", [5, 6]), ("bi", [7])):
        ks = pool[cl]
        rnd.shuffle(ks)
        for a in range(0, len(ks), len(ids)):
            g = dict(zip(ids, ks[a:a + len(ids)]))
            h = [{"op": "open", "p": p, "key": k, "how": rnd.randrange(1, 4)} for p, k in enumerate(g)]
            n = len(g)
            for r in range(3):
                for p in rnd.sample(range(n), n):
                    xs = rnd.sample([1, 2, 3], 3)[:2] + [rnd.choice([4, 5, 6])]
                    if r == 0:
                        xs = [1, 2, 1]
                    h += [{"op": "eval" if cl != "cons" or rnd.random() < .7 else "cons", "p": p, "x": x} for x in xs]
                if r == 1:
                    p = rnd.randrange(n)
                    h += [{"op": "free", "p": p}, {"op": "open", "p": p, "key": list(g)[p], "how": 1}]
            jobs.append(evaltr.Job(h, random.Random("%d/%s/%d" % (seed, cl, a)), keys=g))
    traces = core.pmap(lambda j: j.trace(), jobs)
    c.notes["sweep_problems"] = sum(len(j.keys) for j in jobs)
    c.conform("EvalTrace", traces, remake=lambda k: jobs[k].trace(),
              describe=lambda k: {"keys": {str(a): b for a, b in jobs[k].keys.items()}, "script": jobs[k].L}, chunk=60)
