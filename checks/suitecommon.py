import json, random
import core, suitetr

MC = ("SPECIFICATION Spec\nCONSTANTS NFn=3 NIn=4 NDm=3\nINVARIANTS Increasing OnlySelected NoGap Complete EncDecInverse ByNumbers\n"
      "PROPERTY Ends\nCHECK_DEADLOCK FALSE\n")
FAST = ["toy", "bbob", "bbob-boxed", "bbob-biobj", "bbob-biobj-ext", "bbob-constrained", "bbob-noisy", "bbob-mixint"]
HEAVY = ["bbob-largescale", "bbob-biobj-mixint", "bbob-mixint", "bbob-biobj-ext"]
ALL = FAST + ["bbob-largescale", "bbob-biobj-mixint"]


def gen_cfg(names, depth, ms):
    return ("SPECIFICATION Spec\nCONSTANTS Names={%s} Depth=%d MaxSuites=%d\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
            % (",".join('"%s"' % n for n in names), depth, ms))


def run(chk, behs, tail):
    """Replays behaviours (with a tail of further requests per suite) and checks the traces."""
    scripts = []
    for k, b in enumerate(behs):
        rnd = random.Random("%d %d %s" % (core.SEED, k, chk.id))
        b = tail(b, rnd) if tail else b
        scripts.append(suitetr.script(b, rnd))

    def ex(k):
        d = core.scratch() / ("%s-%d" % (chk.id, k))
        r = core.run_script(scripts[k][0], d)
        import shutil
        shutil.rmtree(d, ignore_errors=True)
        return {"ev": suitetr.trace(r, scripts[k][1])}

    import build
    build.driver()
    traces = core.pmap(ex, range(len(scripts)))
    for t in traces[:2]:
        chk.sample(t["ev"][:12])
    chk.notes["events"] = chk.notes.get("events", 0) + sum(len(t["ev"]) for t in traces)
    chk.conform("SuiteTrace", traces, remake=ex, describe=lambda k: {"script": scripts[k][0]}, chunk=60)
