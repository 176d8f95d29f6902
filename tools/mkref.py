"""Records the reference values of C27 from the current tree (run by hand, the result is committed)."""
import gzip, json, sys
from pathlib import Path
V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / "lib"))
import core, reltr
keys = reltr.ref_keys()
groups = [[k for k in keys[a:a + 40]] for a in range(0, len(keys), 40)]


def rec(g):
    x0 = reltr.ref_optima(g)
    v, _ = reltr.ref_values(g, x0)
    return list(zip(x0, v))


res = core.pmap(rec, groups)
d = {"%s %d %d %d" % k: v for g, r in zip(groups, res) for k, v in zip(g, r)}
assert all(y is not None for x, v in d.values() for y in v)
(V / "ref").mkdir(exist_ok=True)
(V / "ref" / "values.json.gz").write_bytes(gzip.compress(json.dumps(d, sort_keys=True).encode(), mtime=0))
print(len(d))
