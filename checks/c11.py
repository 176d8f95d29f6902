"""C11: archive files of the bi-objective logger."""
import core, build
from biobjcommon import MC, jobs_of, conform


def main():
    c = core.Check("C11", assumptions=["runs with two different objective values closer than 3e-12 of the region of interest are left out (the logger treats values that close as equal)"])
    build.driver()
    c.model("LoggerBiobjMC", MC % c.n(3, 4), workers=8)
    depth = c.n(100, 200)
    conform(c, jobs_of(c, "run", c.n(120, 1500), depth, core.SEED + 11), ["adat", "mdat"])
    return c.finish()
