"""C25: observer options take effect as documented."""
import random
import core, build, optionstr


def main():
    c = core.Check("C25", assumptions=["no option is given twice; settings are read off the written data"])
    build.driver()
    c.model("OptionsMC", "SPECIFICATION Spec\nCONSTANT MaxOpts=3\nINVARIANTS RoundTrip NamesRight UnknownRight OrderFree Defaults\nCHECK_DEADLOCK FALSE\n", workers=4)
    jobs = []
    for depth, num in ((1, c.n(80, 300)), (4, c.n(150, 1500)), (9, c.n(200, 2500)), (14, c.n(100, 1500))):
        behs, r = core.behaviours("OptionsGen", "SPECIFICATION Spec\nCONSTANTS Depth=%d NKeys=%d\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % (depth, len(optionstr.KEYS)), num, depth + 1, core.SEED + depth)
        c.states += r.distinct; c.transitions += r.generated
        jobs += [optionstr.Job(optionstr.KINDS[n % 4], b, random.Random("C25/%d/%d/%d" % (core.SEED, depth, n))) for n, b in enumerate(behs)]
    key = optionstr.KEYS.index("number_evaluation_triggers")
    for kind in ("bbob", "bbob-biobj"):
        for v in range(7):
            jobs.append(optionstr.Job(kind, [{"key": key, "v": v, "style": 0}], random.Random(0), probe=True))
    traces = core.pmap(lambda j: j.trace(), jobs)
    c.notes["observers"] = len(jobs)
    c.sample({"text": jobs[-1].text, "found": traces[-1]["ev"][0].get("found")})
    c.conform("OptionsTrace", traces, remake=lambda k: jobs[k].trace(), describe=lambda k: {"observer": jobs[k].kind, "options": jobs[k].text}, chunk=60)
    return c.finish()
