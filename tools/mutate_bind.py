"""mutate_bind.py REPO N SEED OUT: random small changes in the Python, Java and Rust interfaces of a clone, as mutate.py does for C."""
import ast, json, os, random, re, subprocess, sys, time
from pathlib import Path
V = Path(__file__).resolve().parent.parent
R = Path(sys.argv[1]); N = int(sys.argv[2]); SEED = sys.argv[3]; OUT = sys.argv[4]; ONLY = sys.argv[5:]
FILES = {"build/python/src/cocoex/utilities.py": "C18 C30 C19 C21 C20", "build/python/src/cocoex/solvers.py": "C30", "build/python/src/cocoex/interface.pyx": "C20",
         "build/java/CocoJNI.c": "C28", "build/java/Problem.java": "C28", "build/java/Suite.java": "C28", "build/java/Observer.java": "C28", "build/java/Benchmark.java": "C28", "build/java/Timing.java": "C28",
         "build/rust/src/suite.rs": "C29", "build/rust/src/problem.rs": "C29", "build/rust/src/observer.rs": "C29", "build/rust/src/random.rs": "C29", "build/rust/coco-sys/wrapper.c": "C29"}
OPS = [(r"(?<![<>=!-])<=(?!=)", ["<"]), (r"(?<![<>=!-])>=(?!=)", [">"]), (r"(?<![<-])<(?![<=a-zA-Z])", ["<="]), (r"(?<![->=])>(?![>=])(?=\s)", [">="]),
       (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"\band\b", ["or"]), (r"\bor\b", ["and"]), (r"\bnot \b", [""]),
       (r"\+ 1\b", ["", "+ 2"]), (r"- 1\b", ["", "- 2"]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]), (r"\+=", ["-="]), (r"-=", ["+="]),
       (r"\b0\b(?![.x])", ["1"]), (r"\b1\b(?![.x])", ["0", "2"]), (r"\b([2-9]|[1-9]\d+)\b(?!\.)", ["+1"]), (r"\bmax\b", ["min"]), (r"\bmin\b", ["max"]),
       (r"\bTrue\b", ["False"]), (r"\bFalse\b", ["True"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"(?<![=!])!(?=[a-z(])", [""]),
       (r"^\s+(self\.)?[a-z_>.\[\]-]+ = [^;]*;?\s*$", ["DEL"]), (r"^\s+[a-z_0-9.]+\([^;]*\);?\s*$", ["DEL"])]


def code(f, text):
    """what is compiled: the text without comments"""
    if f.suffix == ".py":
        t = ast.parse(text)
        for n in ast.walk(t):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                n.value.value = ""
        return ast.dump(t)
    if f.suffix == ".pyx":
        return re.sub(r'"""[\s\S]*?"""|#.*', "", text)
    return re.sub(r"//.*|/\*[\s\S]*?\*/|#\[.*\]", "", text)


rnd = random.Random(SEED)
done = 0
while done < N:
    name = rnd.choice(ONLY or list(FILES)); f = R / name
    if not f.exists():
        print("no", name); continue
    old = f.read_bytes(); L = old.decode(errors="replace").split("\n")
    n = rnd.randrange(len(L)); l = L[n]
    if re.match(r"\s*(#|//|\*|/\*|import|from|use|raise|return;)|.*(Exception|Error|warn|panic|assert|print)", l):
        continue
    c = [(m, r) for pat, reps in OPS for m in re.finditer(pat, l) for r in reps if l[:m.start()].count('"') % 2 == 0 and l[:m.start()].count("'") % 2 == 0]
    if not c:
        continue
    m, r = rnd.choice(c)
    r = str(int(m.group(0)) + 1) if r == "+1" else (re.match(r"\s*", l).group(0) + ("pass" if f.suffix in (".py", ".pyx") else ";")) if r == "DEL" else r
    new = l[:m.start()] + r + l[m.end():]
    text = "\n".join(L[:n] + [new] + L[n + 1:])
    try:
        if code(f, text) == code(f, "\n".join(L)):
            continue
    except SyntaxError:
        continue
    done += 1
    rec = {"file": name, "line": n + 1, "old": l.strip(), "new": new.strip(), "caught": None, "ran": []}
    try:
        f.write_text(text, newline="")
        for k in FILES[name].split():
            t = time.time()
            p = subprocess.run("timeout 800 python3 check.py %s" % k, shell=True, capture_output=True, text=True, cwd=V, env=dict(os.environ, COCO_REPO=str(R)))
            rec["ran"].append([k, p.returncode, round(time.time() - t)])
            if p.returncode == 1:
                rec["caught"] = k; break
            if p.returncode != 0:
                rec.setdefault("odd", []).append([k, (p.stdout + p.stderr)[-200:]])
    finally:
        f.write_bytes(old)
    with open(OUT, "a") as w:
        w.write(json.dumps(rec) + "\n")
