"""Observer options (C25): option texts from the specification, observers run with them, settings read off the data."""
import math, random, re, shutil
import core

INT = [str(n) for n in (1, 2, 4, 6, 9, 12, 20, 32)] + ["0", "-1", "33", "100"]
WORDS = ["A1", "precision_x", "my.precision_f", "log_discrete_as_int-7", "100%done", "50%s", "%d%d%s%n", "algorithm_name", "x_precision_x", "number_evaluation_triggers_5", "file_name"]
TEXTS = ['an algorithm', 'precision_x: 3', 'uses precision_f: 2 and log_discrete_as_int: 1', 'result_folder: X', 'algorithm_name: B', '100% precision_x : 7', 'x', 'number_evaluation_triggers: 5 base_evaluation_triggers: 7']
VALUES = {
    "outer_folder": WORDS, "result_folder": WORDS + TEXTS[:1] + TEXTS[5:6], "algorithm_name": WORDS, "algorithm_info": TEXTS,
    "number_target_triggers": ["1", "5", "10", "20", "100"], "log_target_precision": ["1e-08", "0.0001", "0.01", "0", "-1"], "lin_target_precision": ["1e-5", "0.1"],
    "number_evaluation_triggers": ["4", "5", "10", "20", "50", "0", "3"], "base_evaluation_triggers": ["1,2,5", "1,3", "2", "7", "3,4,9"],
    "precision_x": INT, "precision_f": INT, "precision_g": INT, "log_discrete_as_int": ["0", "1"],
    "foo": ["1", "precision_x"], "x_precision_x": ["9"], "precision_xx": ["5"], "precision": ["4"], "number": ["12"], "base": ["3"], "my-precision_f": ["2"], "unknown_" + 60 * "long_name_": ["1"], "w" * 410: ["2", "precision_f"],
    "log_variables": ["none", "all", "low_dim"], "log_constraints": ["none", "all"], "log_only_better": ["0", "1"], "file_name": ["hits.txt", "toy", "precision_f"],
}
KEYS = list(VALUES)
# values beyond the sizes of the library's paths (these jobs run instrumented)
VALUES["algorithm_name"] = WORDS + ["N" * 5000, "M" * 4097]
VALUES["algorithm_info"] = TEXTS + ["info " * 6000 + "end", "j" * 20481]
VALUES["foo"] = ["1", "precision_x", "z" * 9000]
GENERAL = KEYS[:KEYS.index("log_variables")]
OWN = {"rw": ["log_variables", "log_constraints", "log_only_better"], "toy": ["file_name"], "bbob": [], "bbob-biobj": []}
KINDS = ["rw", "toy", "bbob", "bbob-biobj"]
N = 260


def table(n):
    out, e = [], 0
    while True:
        q = 10.0 ** (e / n)
        v = math.floor(q + 1e-9)      # powers of ten are whole
        if v > N:
            return sorted(set(out))
        out.append(v); e += 1


TABLES = {str(n): table(n) for n in (4, 5, 10, 20, 50)}


def digits(t):
    m = re.fullmatch(r"[-+]?\d(?:\.(\d*))?e[-+]\d+", t)
    return str(len(m[1] or "")) if m else "?" + t


class Job:
    def __init__(self, kind, hist, rnd, probe=False):
        self.kind = kind
        toks, text, first = [], "", True
        for h in hist:
            key = KEYS[h["key"]]
            if key not in GENERAL and key not in OWN[kind]:
                key = rnd.choice(OWN[kind]) if OWN[kind] and not any(t["t"] == OWN[kind][0] for t in toks) and rnd.random() < .5 else None
            if key == "number_evaluation_triggers" and kind.startswith("bbob") and not probe:
                key = "precision_g"     # known finding K3, looked at on its own
            if key is None or any(t["k"] == "w" and t.get("name") and t["t"] == key for t in toks):
                continue
            v = VALUES[key][h["v"] % len(VALUES[key])]
            s = h["style"]
            quoted = " " in v or ("," in v and s & 8) or (key in ("algorithm_info", "result_folder", "algorithm_name") and s & 8)
            if not first:
                toks.append({"k": "b", "t": " "}); text += " " * (1 + (s >> 1 & 1))
            first = False
            toks.append({"k": "w", "t": key, "name": 1}); text += key
            if s & 1:
                toks.append({"k": "b", "t": " "}); text += " "
            toks.append({"k": "c", "t": ":"}); text += ":"
            if s & 4 == 0:
                toks.append({"k": "b", "t": " "}); text += " "
            toks.append({"k": "q" if quoted else "w", "t": v}); text += '"%s"' % v if quoted else v
        for t in toks:
            t.pop("name", 0)
        self.toks, self.text = toks, text
        self.build(rnd)

    def build(self, rnd):
        L = [["loglevel", "warning"], ["obs", 0, self.kind, self.text]]

        def prob(su, f, d, i, p):
            L.append(["suite", p, su, "instances: %d" % i, "dimensions: %d" % d])
            L.append(["getfdi", p, f, d, i, p])
            L.append(["add", p, 0])
        if self.kind == "rw":
            prob("bbob-constrained", 1, 2, 1, 1)
            for x in ((1 / 3, 2 / 7), (3.1234567891234567, -2.2), (0.3312345678912345, 0.28)):
                L.append(["eval", 1] + [repr(v) for v in x])
            L.append(["pfree", 1])
            prob("bbob-mixint", 1, 5, 1, 2)
            L.append(["eval", 2] + [repr(v) for v in (1.0, 2.0, -3.0, 4.0, 1 / 3)])
        elif self.kind == "toy":
            prob("toy", 1, 2, 1, 1)
            e = math.log10(9.99)
            while e > math.log10(1.003):
                L.append(["eval", 1, repr(math.sqrt(10.0 ** e)), "0"]); e -= .004
            L.append(["eval", 1, "1e-7", "0"])
        elif self.kind == "bbob":
            prob("bbob-mixint", 1, 5, 1, 1)
            L += [["eval", 1, "1", "2", "-3", "4", "0.5"]] * N
        else:
            prob("bbob-biobj-mixint", 1, 5, 1, 1)
            L += [["eval", 1, "1", "2", "-3", "4", "0.5"]] * N
        L.append(["pfree", 2 if self.kind == "rw" else 1])
        L.append(["ofree", 0])
        self.L = L

    def trace(self):
        d = core.scratch() / ("op-%d" % random.Random().randrange(10**12))
        r = core.run_script(self.L, d, san=len(self.text) > 4000)
        try:
            if r.rc != 0 or len(r.events) < len(self.L):
                return {"ev": [{"op": "died", "rc": r.rc, "text": self.text, "stderr": r.stderr[-200:], "at": str(r.partial)[:100]}]}
            e = {"op": "obs", "kind": self.kind, "toks": self.toks, "text": self.text, "d": 5, "N": 0, "ns": [], "warned": self.warned(r.stdout + r.stderr), "tables": TABLES}
            try:
                e["found"] = self.look(d, e)
            except (OSError, IndexError, ValueError, AttributeError) as x:
                e["found"] = {"result_folder": "cannot be read: %r" % x}
            return {"ev": [e]}
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def warned(self, t):
        m = re.search(r"options were ignored:\n(.*?)Valid keys", t, re.S)
        return sorted(set(m[1].split())) if m else []

    def look(self, d, e):
        outer = [x for x in d.iterdir() if x.is_dir()]
        inner = [x for o in outer for x in o.iterdir()]
        f = {"outer_folder": "|".join(x.name for x in outer), "result_folder": "|".join(x.name for x in inner)}
        root = inner[0]
        rows = lambda p, sep: [[w for w in l.strip().split(sep) if w] for l in p.read_text().split("\n") if l.strip() and l[0] != "%"]
        if self.kind == "rw":
            a, = root.glob("*constrained*_rw.txt")
            ra = rows(a, "\t"); c = ra[0]
            f["log_only_better"] = "1" if len(ra) < 3 else "0"
            f["precision_f"] = digits(c[2])
            f["precision_x"] = f["precision_g"] = f["log_discrete_as_int"] = "*"
            rest = c[3:]
            v = "all" if len(rest) in (2, 3) else "none"     # one constraint, two variables
            f["log_variables"], f["log_constraints"] = v, "all" if len(rest) in (1, 3) else "none"
            if v == "all":
                f["precision_x"] = digits(rest[0])
                b, = root.glob("*mixint*_rw.txt")
                rb = rows(b, "\t")[0]
                f["log_discrete_as_int"] = "0" if "." in rb[5] else "1"
            if f["log_constraints"] == "all":
                f["precision_g"] = digits(rest[-1])
        elif self.kind == "toy":
            names = [x.name for x in root.iterdir()]
            f["file_name"] = "|".join(names)
            rs = [x for x in rows(root / names[0], "\t") if len(x) == 5]
            ts = [float(x[2]) for x in rs]
            f["number_target_triggers"] = str(len([t for t in ts if 1 + 1e-9 < t <= 10 * (1 + .3 * 10.0 ** -min(15, int(digits(rs[0][1]))))])) if int(digits(rs[0][1])) > 3 else "*"
            f["log_target_precision"] = "%g" % ts[-1] if int(digits(rs[0][1])) > 3 else "*"
            f["precision_f"], f["precision_x"] = digits(rs[0][1]), digits(rs[0][3])
        elif self.kind == "bbob":
            i, = root.glob("*.info")
            f["algorithm_name"] = re.search(r"algId = '(.*?)'", i.read_text())[1]
            t, = root.glob("*/*.tdat")
            rs = rows(t, " ")
            f["log_discrete_as_int"] = "0" if "." in rs[0][5] else "1"
            e["N"], e["ns"] = N, sorted({int(x[0]) for x in rs} - {1, N})
        else:
            i, = root.glob("*.info")
            t = i.read_text()
            f["algorithm_name"] = re.search(r"algorithm = '(.*?)'", t)[1]
            f["algorithm_info"] = t.split("\n")[1][1:].strip()
            a, = root.glob("archive/*.adat")
            w = rows(a, "\t")[-1]
            f["precision_f"] = digits(w[1])
            f["precision_x"], f["log_discrete_as_int"] = digits(w[-1]), "0" if "." in w[3] else "1"
            if int(f["precision_f"].strip("?") or 0) == 0:
                f["precision_f"] = "*"
            h, = root.glob("*/*.tdat")
            rs = rows(h, "\t")
            e["N"], e["ns"] = N, sorted({int(x[0]) for x in rs} - {1, N})
        return f
