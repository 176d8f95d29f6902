"""C28, C29 and C31: the Java, the Rust and the MATLAB interface answer what the C library answers."""
import random
import core, build, bindtr

CFG = "SPECIFICATION TraceSpec\nCONSTANT Own=%s\nINVARIANT Conforms\nCHECK_DEADLOCK FALSE\n"


def main(pid, lang):
    own = "TRUE" if lang == "rust" else "FALSE"
    c = core.Check(pid, assumptions=["the answers of the C library are read from the driver in processes of their own; not-a-number has one representation"])
    build.driver()
    getattr(build, lang)()
    c.model("BindingsMC", "SPECIFICATION Spec\nCONSTANTS N=2 MaxOps=%d Own=%s\nINVARIANTS InOrder Ends Known OneLent Counted OneWatched WatchedAlive\nCHECK_DEADLOCK FALSE\n" % (c.n(7, 8), own), workers=8)
    t = bindtr.Tables(lang, core.SEED)
    conf, ref = core.scratch() / "conf.json", core.scratch() / "ref.json"
    t.conf(conf); t.reference(ref)
    depth = c.n(60, 140)
    behs, r = core.behaviours("BindingsGen", "SPECIFICATION Spec\nCONSTANTS Depth=%d Own=%s\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % (depth, own), c.n(300 if lang == "matlab" else 160, 900), depth + 1, core.SEED + 28, env={"CONF": conf})
    c.states += r.distinct; c.transitions += r.generated
    jobs = core.pmap(lambda kb: bindtr.Job(t, kb[1], lang, random.Random("%s/%d/%d" % (pid, core.SEED, kb[0]))), list(enumerate(behs)))
    traces = core.pmap(lambda j: j.trace(), jobs)
    keep = [k for k in range(len(jobs)) if jobs[k].left is None]
    c.notes["left_out"] = sorted({jobs[k].left for k in range(len(jobs)) if jobs[k].left})[:5]
    c.notes["left_out_number"] = len(jobs) - len(keep)
    c.notes["answers"] = sum(len(traces[k]["ev"]) for k in keep)
    c.notes["problems"] = sum(len(q["list"]) for q in t.cfgs)
    if len(keep) < len(jobs) // 2:
        raise core.ToolError("most behaviours end the C library: %s" % c.notes["left_out"])
    c.sample({"ev": traces[keep[0]]["ev"][:4]})
    c.conform("BindingsTrace", [traces[k] for k in keep], cfg=CFG % own, env={"REF": ref}, remake=lambda q: jobs[keep[q]].trace(),
              describe=lambda q: {"script": jobs[keep[q]].B}, chunk=60)
    return c.finish()
