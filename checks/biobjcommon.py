import random
import build, core, biobjtr

MC = "SPECIFICATION Spec\nCONSTANTS Grid=2 Micro=1 MaxOps=%d Top=3\n T1 <- MCT1\nINVARIANTS ArchiveRight AdatAll AdatFinal Dat Tdat Rdat Reconstructs\nCHECK_DEADLOCK FALSE\n"


def cfg(what):
    return "SPECIFICATION TraceSpec\nCONSTANTS Grid=1000 Micro=10 What={%s}\nINVARIANT Conforms\nCHECK_DEADLOCK FALSE\n" % ",".join('"%s"' % w for w in what)


def jobs_of(c, kind, num, depth, seed):
    behs, r = core.behaviours("LoggerBiobjGen", 'SPECIFICATION Spec\nCONSTANTS Depth=%d Mode="%s"\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n' % (depth, kind), num, depth + 1, seed)
    c.states += r.distinct; c.transitions += r.generated
    return core.pmap(lambda kb: biobjtr.Job(kb[1], random.Random("%d/%d/%s" % (seed, kb[0], kind)), kind), list(enumerate(behs)))


def conform(c, jobs, what):
    traces = core.pmap(lambda j: j.trace(), jobs)
    keep = [k for k in range(len(jobs)) if jobs[k].skip is None]
    c.notes["skipped_at_boundaries"] = c.notes.get("skipped_at_boundaries", 0) + len(jobs) - len(keep)
    c.notes["events"] = c.notes.get("events", 0) + sum(len(traces[k]["ev"]) for k in keep)
    for k in keep[:1]:
        c.sample({"ev": traces[k]["ev"][2:8]})
    c.conform("LoggerBiobjTrace", [traces[k] for k in keep], remake=lambda q: jobs[keep[q]].trace(), cfg=cfg(what),
              describe=lambda q: {"script": jobs[keep[q]].L}, chunk=20)
