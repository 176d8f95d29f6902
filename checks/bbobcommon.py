import random
import build, core, bbobtr

MC = "SPECIFICATION Spec\nCONSTANTS MaxOps=%d\n T1 <- MCT1\nINVARIANTS DatRows TdatRows RdatRows MdatRows InfoRight InfoCount\nCHECK_DEADLOCK FALSE\n"


def cfg(what):
    return "SPECIFICATION TraceSpec\nCONSTANT What={%s}\nINVARIANT Conforms\nCHECK_DEADLOCK FALSE\n" % ",".join('"%s"' % w for w in what)


def go(c, num, depth, mode, seed, what, mc=6, vary=True, **kw):
    build.driver()
    if mc:
        c.model("LoggerBbobMC", MC % mc, workers=8)
    behs, r = core.behaviours("LoggerBbobGen", 'SPECIFICATION Spec\nCONSTANTS Depth=%d Mode="%s"\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n' % (depth, mode), num, depth + 1, seed)
    c.states += r.distinct; c.transitions += r.generated
    jobs = core.pmap(lambda kb: bbobtr.Job(kb[1], random.Random("%d/%d/%s/%s" % (seed, kb[0], c.id, mode)), vary, **kw), list(enumerate(behs)))
    conform(c, jobs, what)
    return jobs


def conform(c, jobs, what):
    traces = core.pmap(lambda j: j.trace(), jobs)
    keep = [k for k in range(len(jobs)) if jobs[k].skip is None]
    c.notes["skipped_at_target_boundaries"] = c.notes.get("skipped_at_target_boundaries", 0) + len(jobs) - len(keep)
    c.notes["events"] = c.notes.get("events", 0) + sum(len(traces[k]["ev"]) for k in keep)
    for k in keep[:2]:
        c.sample({"ev": traces[k]["ev"][:6]})
    c.conform("LoggerBbobTrace", [traces[k] for k in keep], remake=lambda q: jobs[keep[q]].trace(), cfg=cfg(what),
              describe=lambda q: {"script": jobs[keep[q]].L}, chunk=30)
