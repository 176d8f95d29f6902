"""C10: restarts and recommendations are recorded, and only in their files."""
import core
from bbobcommon import go
from biobjcommon import jobs_of, conform


def main():
    c = core.Check("C10", assumptions=["runs that come closer to a target boundary than rounding allows are left out"])
    go(c, c.n(130, 900), 60, "run", core.SEED + 35, ["rdat", "mdat"], mc=c.n(6, 8))
    conform(c, jobs_of(c, "run", c.n(60, 500), c.n(80, 140), core.SEED + 36), ["rdat", "mdat"])
    return c.finish()
