"""tryseed.py [-t] [-n] ID...: applies each planted bug to /repo, builds, runs its demo, (-t: the stable tests,) (-n: no) check; undoes it."""
import json, os, subprocess, sys, time
from pathlib import Path
V = Path(__file__).resolve().parent.parent
args = [a for a in sys.argv[1:] if not a.startswith("-")]
R = os.environ.get("COCO_REPO", "/repo")   # a clone: only the amalgamation is built (C demos)
T, NOCHECK = "-t" in sys.argv, "-n" in sys.argv
CL = "-c" in sys.argv   # also demo on the clean tree


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def build(cmd="bash /opt/vp/build.sh"):
    if R != "/repo":
        return sh("mkdir -p %s/build/c && cd %s/lib && python3 -c 'import build, pathlib; build._amalgamate(pathlib.Path(\"%s/build/c\"))'" % (R, V, R)).returncode
    # scripts/fabricate cannot parse the name of vcheck's tag: hidden while building
    t = sh("git -C %s rev-parse -q --verify refs/tags/vcheck-pass" % R).stdout.strip()
    if t:
        sh("git -C %s update-ref -d refs/tags/vcheck-pass" % R)
    try:
        return sh(cmd).returncode
    finally:
        if t:
            sh("git -C %s update-ref refs/tags/vcheck-pass %s" % (R, t))


if CL:
    assert build() == 0
    for a in args:
        print(a, "clean demo rc", sh("bash %s/seeded/%s/demo.sh" % (V, a), cwd=R).returncode, flush=True)
for a in args:
    m = json.loads((V / "seeded" / a / "meta.json").read_text())
    assert sh("git -C %s status --porcelain -uno" % R).stdout == ""
    r = sh("git -C %s apply %s/seeded/%s/patch.diff" % (R, V, a))
    try:
        if r.returncode:
            print(a, "DOES NOT APPLY", r.stderr[:300]); continue
        b = build()
        d = sh("bash %s/seeded/%s/demo.sh" % (V, a), cwd=R)
        o = "%s %s build %d demo %d" % (a, m["property"], b, d.returncode)
        if T:
            build("bash /opt/vp/test.sh /tmp/seed-out.json")
            st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); ps = set(json.load(open("/tmp/seed-out.json"))["passed"])
            o += " tests " + ("ok" if st <= ps else "FAIL %s" % sorted(st - ps)[:3])
        print(o, flush=True)
        if not NOCHECK:
            t = time.time()
            c = sh("python3 check.py %s" % m["property"], cwd=V)
            v = [l for l in c.stdout.splitlines() if l.startswith(("VIOLATION", "  ", "CHECK-ERROR"))][:3]
            print("   check rc %d %.0fs %s" % (c.returncode, time.time() - t, " | ".join(v)[:400]), flush=True)
    finally:
        sh("git -C %s checkout -- ." % R)
build()
