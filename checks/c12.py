"""C12: indicator files of the bi-objective logger."""
import core, build
from biobjtr import Refeed
from biobjcommon import MC, jobs_of, conform

WHAT = ["dat", "tdat", "rdat", "info"]


def main():
    c = core.Check("C12", assumptions=["indicator values compared with a relative tolerance of 1e-9",
                                       "runs whose values lie within rounding of a target boundary are left out"])
    build.driver()
    c.model("LoggerBiobjMC", MC % c.n(3, 4), workers=8)
    depth = c.n(90, 160)
    conform(c, jobs_of(c, "feed", c.n(120, 1200), depth, core.SEED + 12), WHAT)
    conform(c, jobs_of(c, "run", c.n(60, 600), depth, core.SEED + 112), WHAT)
    conform(c, core.pmap(lambda k: Refeed("%d/%d" % (core.SEED, k)), range(c.n(60, 400))), WHAT)
    return c.finish()
