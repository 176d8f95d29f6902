"""mkseed.py FILE: FILE is Python defining id, prop, needs, breaks, edits=[(file, old, new)], demo (C source) or demo_py.
Writes seeded/<id>/ and leaves /repo unchanged."""
import json, subprocess, sys
from pathlib import Path
V = Path(__file__).resolve().parent.parent
import os
R = Path(os.environ.get("COCO_REPO", "/repo"))
C_SH = '''#!/bin/bash
# exit 0: the property holds here; non-zero: it is broken
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
gcc -O1 -w @FLAGS@ -I build/c -o "$T/demo" "$D/demo.c" build/c/coco.c -lm || exit 3
cd "$T" && timeout 120 ./demo%s
'''
PY_SH = '''#!/bin/bash
# exit 0: the property holds here; non-zero: it is broken
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD/_build/inst/site
cd "$T" && timeout 200 /opt/vp/venv/bin/python "$D/demo.py"
'''

JAVA_SH = '''#!/bin/bash
# exit 0: the property holds here; non-zero: it is broken
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
javac -nowarn -cp "$R/_build/java/classes" -d "$T" "$D/Demo.java" || exit 3
cd "$T" && timeout 120 java -Djava.library.path="$R/_build/java" -cp "$R/_build/java/classes:$T" Demo
'''
RUST_SH = '''#!/bin/bash
# exit 0: the property holds here; non-zero: it is broken
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
python3 "$D/mkrust.py" "$PWD" "$T" "$D/demo.rs" || exit 3
cd "$T" && timeout 120 ./demo
'''
MAT_SH = '''#!/bin/bash
# exit 0: the property holds here; non-zero: it is broken
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
gcc -O1 -w -I "$D" -I build/c -o "$T/demo" "$D/demo.c" build/matlab/cocoCall.c -lm || exit 3
cd "$T" && timeout 120 ./demo
'''
MKRUST = '''"""Builds the crate (declarations made from coco.h: there is no bindgen here) and a program: mkrust.py REPO DIR PROGRAM"""
import os, shutil, subprocess, sys
from pathlib import Path
R, out, prog = Path(sys.argv[1]), Path(sys.argv[2]), sys.argv[3]


@BINDINGS@

(out / "vendor").mkdir()
for n in ("coco.c", "coco.h"):
    shutil.copy(R / "build/c" / n, out / "vendor")
shutil.copy(R / "src/coco_internal.h", out / "vendor")
q = R / "build/rust"
for n in ("wrapper.c", "wrapper.h"):
    shutil.copy(q / "coco-sys" / n, out)
(out / "coco_sys.rs").write_text(_bindings((out / "vendor/coco.h").read_text() + (out / "wrapper.h").read_text()))


def run(*c):
    subprocess.run([str(a) for a in c], cwd=out, check=True, env=dict(os.environ, OUT_DIR=str(out)))


run("gcc", "-O1", "-w", "-c", "-o", "coco.o", "vendor/coco.c")
run("gcc", "-O1", "-w", "-c", "-o", "wrapper.o", "wrapper.c")
run("ar", "rcs", "libcoco.a", "coco.o", "wrapper.o")
r = ["rustc", "--edition", "2021", "--cap-lints", "allow", "-O", "-L", out]
run(*r, "--crate-type", "rlib", "--crate-name", "coco_sys", q / "coco-sys/src/lib.rs")
run(*r, "--crate-type", "rlib", "--crate-name", "coco_rs", "--extern", "coco_sys=libcoco_sys.rlib", q / "src/lib.rs")
run(*r, "--crate-name", "demo", "--extern", "coco_rs=libcoco_rs.rlib", "--extern", "coco_sys=libcoco_sys.rlib", "-l", "static=coco", "-l", "m", prog)
'''


def _mkrust():
    t = (V / "lib/build.py").read_text()
    a = t.index("def _bindings("); b = t.index("def rust(")
    return MKRUST.replace("@BINDINGS@", t[a:b].strip() + "\n")


def make(g):
    assert not subprocess.run(["git", "-C", str(R), "status", "--porcelain", "-uno"], capture_output=True, text=True).stdout
    d = V / "seeded" / g["id"]
    d.mkdir(parents=True, exist_ok=True)
    try:
        for f, old, new in g["edits"]:
            t = (R / f).read_bytes().decode()
            if "\r\n" in t:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            assert t.count(old) == 1, (g["id"], f, t.count(old), old)
            (R / f).write_bytes(t.replace(old, new).encode())
        (d / "patch.diff").write_bytes(subprocess.run(["git", "-C", str(R), "diff"], capture_output=True).stdout)
    finally:
        subprocess.run(["git", "-C", str(R), "checkout", "-q", "--", "."])
    (d / "meta.json").write_text(json.dumps({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, indent=1) + "\n")
    if "demo_java" in g:
        (d / "Demo.java").write_text(g["demo_java"]); (d / "demo.sh").write_text(JAVA_SH)
    elif "demo_mat" in g:
        for n in ("mex.h", "interp.c"):
            (d / n).write_text((V / "harness/matlab" / n).read_text())
        (d / "demo.c").write_text('#define main interp_main\n#include "interp.c"\n#undef main\n' + g["demo_mat"]); (d / "demo.sh").write_text(MAT_SH)
    elif "demo_rs" in g:
        (d / "demo.rs").write_text(g["demo_rs"]); (d / "mkrust.py").write_text(_mkrust()); (d / "demo.sh").write_text(RUST_SH)
    elif "demo" in g:
        (d / "demo.c").write_text(g["demo"]); (d / "demo.sh").write_text((C_SH % g.get("post", "")).replace(" build/c/coco.c", "" if g.get("self") else " build/c/coco.c").replace(" @FLAGS@", g.get("flags", "") and " " + g["flags"]))
    else:
        (d / "demo.py").write_text(g["demo_py"]); (d / "demo.sh").write_text(PY_SH)
    (d / "demo.sh").chmod(0o755)


if __name__ == "__main__":
    for f in sys.argv[1:]:
        g = {}
        exec(open(f).read(), g)
        for s in g["SEEDS"]:
            make(s); print("made", s["id"])
