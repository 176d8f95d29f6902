"""mutate.py REPO N SEED OUT [FILE...]: makes N random small changes in a clone of the repository and runs the checks that
concern the changed file until one reports it. What no check reports is examined by hand (COCO_REPO selects the clone)."""
import json, os, random, re, subprocess, sys, time
from pathlib import Path
V = Path(__file__).resolve().parent.parent
R = Path(sys.argv[1]); N = int(sys.argv[2]); SEED = sys.argv[3]; OUT = sys.argv[4]
MAP = [("f_|transform_|c_linear|brentq|suite_bbob_legacy", "C27 C22 C04 C23"),
       ("suite_sbox|suite_largescale|suite_bbob.c|suite_bbob_noisy|suite_biobj|suite_cons|suite_toy", "C27 C01 C02 C22 C03 C04 C12 C15"),
       ("suite_bbob_mixint", "C23 C27 C02 C22"),
       ("coco_suite", "C02 C01 C03 C15 C04"),
       ("coco_problem", "C05 C22 C06 C27 C04 C14 C15 C24"),
       ("coco_observer", "C25 C24 C07 C08 C12 C16 C17 C06 C15"),
       ("coco_utilities|coco_string", "C25 C16 C24 C03 C26 C27 C07 C12 C15 C22"),
       ("coco_archive|mo_", "C13 C11 C12 C15"),
       ("coco_random|coco_runtime", "C26 C27"),
       ("_bbob.c", "C07 C08 C09 C10 C17 C15 C06 C14"),
       ("_biobj.c", "C12 C11 C17 C15 C06"),
       ("_rw.c|_toy.c", "C24 C25 C06 C15")]
OPS = [(r"(?<![<>=!-])<=(?!=)", ["<"]), (r"(?<![<>=!-])>=(?!=)", [">"]), (r"(?<![<-])<(?![<=a-z])", ["<="]), (r"(?<![->])>(?![>=])", [">="]),
       (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"\+ 1\b", ["", "+ 2"]), (r"- 1\b", ["", "- 2"]),
       (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]), (r"\+\+", ["--"]), (r"\+=", ["-="]), (r"-=", ["+="]),
       (r"\b0\b(?![.x])", ["1"]), (r"\b1\b(?![.x])", ["0", "2"]), (r"\b([2-9]|[1-9]\d+)\b(?!\.)", ["+1"]), (r"\bmax\b", ["min"]), (r"\bi\b(?=\])", ["0"]), (r"!(?==)", []), (r"(?<![=!])!(?=[a-z(])", [""]),
       (r"^\s+break;\s*$", [";"]), (r"^\s+[a-z_>.\[\]-]+ = [^;]*;\s*$", [";"]), (r"^\s+[a-z_0-9]+\([^;]*\);\s*$", [";"])]
SKIP = re.compile(r"^\s*(/?\*|//|#|assert|coco_(warning|error|info|debug)|const char|static|return;|\"|size_t \w|double \w|int \w|for \(\w+ = 0; \w+ < count; \w+\+\+\))|coco_free_memory|coco_warning|coco_error|coco_debug|coco_info|printf\(stderr|\\brief")


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def obj():
    d = R / "build" / "mut"; d.mkdir(parents=True, exist_ok=True)
    if sh("cd %s/lib && COCO_REPO=%s python3 -c 'import build, pathlib; build._amalgamate(pathlib.Path(\"%s\"))'" % (V, R, d)).returncode:
        return None
    # line numbers do not matter
    sh("sed -i 's/__LINE__/0/g; s/assert(/ASSERT_OFF(/' %s/coco.c; sed -i '1i #define ASSERT_OFF(x) ((void)0)' %s/coco.c" % (d, d))
    r = sh("gcc -O2 -w -S -o - -I %s %s/coco.c" % (d, d))
    return r.stdout if r.returncode == 0 else None


def cands(f):
    out, infun, mac = [], 0, 0
    L = f.read_text(errors="replace").split("\n")
    depth = 0
    for n, l in enumerate(L):
        inside = depth > 0
        depth += l.count("{") - l.count("}")
        if not inside or SKIP.search(l) or mac:
            continue
        for pat, reps in OPS:
            for m in re.finditer(pat, l):
                if l[:m.start()].count('"') % 2:
                    continue
                for rep in reps:
                    t = m.group(0)
                    rep = str(int(t) + 1) if rep == "+1" else rep
                    out.append((n, l[:m.start()] + rep + l[m.end():]))
    return out


rnd = random.Random(SEED)
files = [R / "src" / f for f in sys.argv[5:]] or [f for f in sorted((R / "src").glob("*.c")) if not re.search("best_values|old|matlab|version|gradient", f.name)]
base = obj()
assert base
done = 0
while done < N:
    f = rnd.choice(files)
    cs = cands(f)
    if not cs:
        continue
    n, new = rnd.choice(cs)
    old = f.read_bytes()
    text = old.decode(errors="replace").split("\n")
    was = text[n]
    if was.endswith("\r"):
        new = new.rstrip("\r") + "\r"
    text[n] = new
    try:
        f.write_text("\n".join(text), newline="")
        o = obj()
        if o is None or o == base:
            continue
        done += 1
        rec = {"file": f.name, "line": n + 1, "old": was.strip(), "new": new.strip(), "caught": None, "ran": []}
        chk = next((c for p, c in MAP if re.search(p, f.name)), "C27 C05").split()
        for c in chk:
            t = time.time()
            r = sh("timeout 600 python3 check.py %s" % c, cwd=V, env=dict(os.environ, COCO_REPO=str(R)))
            rec["ran"].append([c, r.returncode, round(time.time() - t)])
            if r.returncode == 1:
                rec["caught"] = c
                break
            if r.returncode != 0:
                rec.setdefault("odd", []).append([c, (r.stdout + r.stderr)[-200:]])
        with open(OUT, "a") as w:
            w.write(json.dumps(rec) + "\n")
    finally:
        f.write_bytes(old)
