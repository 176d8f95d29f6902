"""Common machinery of the checks: run scripts on the real code, run TLC, report."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path
import build

VERIF = build.VERIF
SPEC = VERIF / "spec"
WORK = build.WORK
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class ToolError(Exception):
    """The machinery itself failed: neither a pass nor a violation."""


# ------------------------------------------------------------------ the real code
class Result:
    __slots__ = ("events", "rc", "stdout", "stderr", "dir", "partial")


MAXFILE = 1 << 27       # no program under test writes a file larger than this (the driver sees to it itself)
_hung = 0


def run_program(cmd, cwd, env=None, timeout=120, input=None):
    """(rc, stdout, stderr) of a program under test: 124 when it does not end; after some that did not end the others are
    given less time, and then none.  What it prints is limited like its files."""
    global _hung
    t = timeout if _hung == 0 else min(timeout, 20) if _hung < 16 else 0
    if not t:
        return 124, "", "not run: %d programs did not end" % _hung
    with tempfile.TemporaryFile(dir=scratch()) as o, tempfile.TemporaryFile(dir=scratch()) as e, tempfile.TemporaryFile(dir=scratch()) as i:
        if input is not None:
            i.write(input.encode()); i.flush(); i.seek(0)
        try:
            rc = subprocess.run([str(c) for c in cmd], cwd=cwd, stdin=i, stdout=o, stderr=e, env=env, timeout=t).returncode
        except subprocess.TimeoutExpired:
            _hung += 1
            return 124, "", "timeout"
        if rc in (-25, 153):    # a file beyond the limit
            _hung += 1
            for f in Path(cwd).rglob("*"):
                if f.is_file() and f.stat().st_size > MAXFILE // 8:
                    os.truncate(f, 1 << 16)
        o.seek(0); e.seek(0)
        return rc, o.read().decode(errors="replace"), e.read().decode(errors="replace")


def run_script(lines, cwd, san=False, env=None, keep=None, timeout=120, name="s"):
    """Runs one driver script in directory cwd; events of completed commands, plus the
    command that ended the process (partial) when there is one."""
    cwd = Path(cwd); cwd.mkdir(parents=True, exist_ok=True)
    sf = cwd / (name + ".script"); ef = cwd / (name + ".events")
    sf.write_text("".join("\t".join(map(str, l)) + "\n" for l in lines))
    e = dict(os.environ)
    if san:
        e["ASAN_OPTIONS"] = "detect_leaks=1:exitcode=99:abort_on_error=0:log_path=" + str(cwd / (name + ".asan"))
        e["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=98:log_path=" + str(cwd / (name + ".ubsan"))
    if env:
        e.update(env)
    r = Result()
    r.rc, r.stdout, r.stderr = run_program([build.driver(san) if not isinstance(san, Path) else san, sf.name, ef.name], cwd, e, timeout)
    r.events, r.partial, r.dir = [], None, cwd
    if ef.exists():
        for ln in ef.read_text(errors="replace").splitlines():
            try:
                o = json.loads(ln)
                if o.get("bad"):
                    raise ToolError("driver does not know the command %s" % o)
                r.events.append(o)
            except json.JSONDecodeError:
                try:
                    r.partial = json.loads(ln.rstrip(",") + "}")
                except json.JSONDecodeError:
                    m = re.match(r'\{"l":(\d+),"op":"(\w+)"', ln)
                    r.partial = {"l": int(m.group(1)), "op": m.group(2)} if m else {"l": -1, "op": "?"}
    return r


def pmap(fn, items, n=8):
    scratch()
    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(fn, items))


# ------------------------------------------------------------------ TLC
class TLCResult:
    pass


def tlc(module, cfg, env=None, workers=4, extra=(), timeout=840, mem="3g", cwd=None):
    """Runs TLC on spec/<module>.tla with the configuration text cfg."""
    d = Path(tempfile.mkdtemp(prefix="tlc-", dir=str(scratch())))
    try:
        (d / "M.cfg").write_text(cfg)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss16m", "-cp", JAR, "-Djava.io.tmpdir=" + str(d), "-DTLA-Library=" + str(SPEC),
               "tlc2.TLC", "-config", str(d / "M.cfg"), "-metadir", str(d / "meta"), "-noGenerateSpecTE",
               "-workers", str(workers), *map(str, extra), str(SPEC / (module + ".tla"))]
        try:
            p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on " + module)
        r = TLCResult()
        r.out, r.rc, r.cmd = p.stdout, p.returncode, " ".join(cmd)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.out)
        r.generated, r.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        if not m:
            m = re.findall(r"(\d+) states? checked", r.out) or re.findall(r"states generated: (\d+)", r.out)
            if m:
                r.generated = r.distinct = int(m[-1])
        r.violated = re.findall(r"Invariant (\S+) is violated|Property (\S+) is violated|property (\S+) was violated", r.out)
        r.violated = [x for t in r.violated for x in t if x]
        if "Temporal properties were violated" in r.out:
            r.violated.append("temporal")
        if re.search(r"Action property .* is violated", r.out):
            r.violated.append("action property")
        r.deadlock = "Deadlock reached" in r.out
        r.ok = r.rc == 0 and not r.violated and "Error:" not in r.out
        if not r.ok and not r.violated and not r.deadlock:
            raise ToolError("TLC failed on %s (rc %d):\n%s" % (module, r.rc, _trim(r.out)))
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        WORK.mkdir(exist_ok=True)
        _scratch = Path(tempfile.mkdtemp(prefix="run-", dir=str(WORK)))
        import atexit
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


def _trim(t):
    return "\n".join(l for l in t.splitlines() if not re.match(r"(Parsing|Semantic pro|TLC2 V|Running|Starting|Finished|Linting)", l))[-3000:]


def behaviours(module, cfg, num, depth, seed, env=None):
    """Behaviours TLC generates from the specification: the module prints
    <<"BEH", ToJson(hist)>> at the end of each."""
    r = tlc(module, cfg, env=env, workers=1, extra=["-simulate", "num=%d" % num, "-depth", depth, "-seed", seed])
    out, seen = [], set()
    for m in re.finditer(r'<<\s*"BEH",\s*"(.*?)"\s*>>', r.out, re.S):
        s = m.group(1)
        if s in seen:
            continue
        seen.add(s)
        out.append(json.loads(json.loads('"' + s.replace("\n", "") + '"')))
    if r.violated:
        raise ToolError("the specification violates its own invariant %s in simulation:\n%s" % (r.violated, r.out[-3000:]))
    if not out:
        raise ToolError("no behaviour generated from %s:\n%s" % (module, r.out[-2500:]))
    return out, r


# ------------------------------------------------------------------ one check
class Check:
    def __init__(self, pid, level="model_checking", assumptions=()):
        self.id, self.level, self.assumptions = pid, level, list(assumptions)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.violations, self.notes, self.known = [], [], {}, []
        self.rng = random.Random(SEED * 1000003 + sum(map(ord, pid)))
        self.thorough = TIER == "thorough"
        kf = VERIF / "known_findings.json"
        self.findings = [k for k in json.loads(kf.read_text()) if k.get("status") == "known" and k["property"] == pid] if kf.exists() else []

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def model(self, module, cfg, **kw):
        """Exhaustive bounded check of the specification itself."""
        r = tlc(module, cfg, **kw)
        if not r.ok:
            raise ToolError("the specification %s does not satisfy %s:\n%s" % (module, r.violated or "deadlock freedom", r.out[-3000:]))
        self.states += r.distinct; self.transitions += r.generated
        self.notes.setdefault("models", []).append({"module": module, "distinct": r.distinct, "generated": r.generated})
        return r

    def conform(self, module, traces, remake=None, env=None, cfg=None, describe=None, chunk=400):
        """traces: list of JSON values, each one a recorded execution. TLC steps the
        specification along each; the first event it does not allow is a violation.
        remake(k) re-executes trace k on the real code, to confirm before reporting."""
        cfg = cfg or "SPECIFICATION TraceSpec\nINVARIANT Conforms\nCHECK_DEADLOCK FALSE\n"
        if not traces:
            raise ToolError("no traces for " + module)
        chunks = [list(range(a, min(a + chunk, len(traces)))) for a in range(0, len(traces), chunk)]

        def one(ids):
            return self._check_batch(module, cfg, [traces[k] for k in ids], env)

        res = pmap(one, chunks, 4)
        for ids, (r, bad) in zip(chunks, res):
            self.states += r.distinct; self.transitions += r.generated; self.traces += len(ids)
            todo = list(ids)
            while bad is not None:
                k, step, txt = todo[bad[0]], bad[1], bad[2]
                tr = traces[k]
                if remake is not None:
                    bad2 = None
                    for _ in range(3):
                        tr2 = remake(k)
                        r2, bad2 = self._check_batch(module, cfg, [tr2], env)
                        if bad2 is not None:
                            break
                    if bad2 is None:
                        # seen once and never again: a process that was ended or starved, not what the code does
                        self.notes["not_reproduced"] = self.notes.get("not_reproduced", 0) + 1
                        last = tr["ev"][-1] if isinstance(tr, dict) and "ev" in tr else tr[-1]
                        print("NOTE trace %d of %s, event %s was not accepted once and accepted in three further runs: %s" % (k, module, step, json.dumps(last)[:300]), file=sys.stderr)
                        if self.notes["not_reproduced"] > 3:
                            raise ToolError("several traces of %s were rejected once and accepted when run again" % module)
                        todo = todo[bad[0] + 1:]
                        if not todo:
                            break
                        r, bad = self._check_batch(module, cfg, [traces[x] for x in todo], env)
                        continue
                    tr, step, txt = tr2, bad2[1], bad2[2]
                dm = re.search(r'<<\s*"DIFF".*', txt)
                self.violation("%s: trace %d, event %s %s" % (module, k, step, re.sub(r"\s+", " ", re.split(r"Error:|Parsing file|\(jar:file|Semantic processing|Linting of", txt[dm.start():dm.start() + 700])[0]) if dm else ""),
                               {"module": module, "trace": tr, "event_number": step, "tlc": txt,
                                "what": describe(k) if describe else None})
                if len(self.violations) >= 5:
                    return
                todo = todo[bad[0] + 1:]
                if not todo:
                    break
                r, bad = self._check_batch(module, cfg, [traces[x] for x in todo], env)

    def _check_batch(self, module, cfg, trs, env):
        f = tempfile.NamedTemporaryFile("w", suffix=".json", dir=str(scratch()), delete=False)
        json.dump(trs, f); f.close()
        r = tlc(module, cfg, env={**(env or {}), "TRACES": f.name}, workers=2)
        os.unlink(f.name)
        if r.ok:
            want = sum(len(t["ev"]) if isinstance(t, dict) else len(t) for t in trs) + len(trs)
            if r.distinct < want:
                raise ToolError("%s: TLC explored %d states, %d expected: a trace was not consumed" % (module, r.distinct, want))
            return r, None
        tids = [int(x) for x in re.findall(r"/\\ tid = (\d+)", r.out)]
        steps = [int(x) for x in re.findall(r"/\\ i = (\d+)", r.out)]
        if not tids:
            raise ToolError("cannot read the TLC counterexample:\n" + r.out[-2500:])
        # smallest trace id: with several workers TLC may report any; bisect is not needed
        diff = "".join(re.findall(r'<<\s*"DIFF".*?>>\n(?=\S)', r.out, re.S))[:1500]
        return r, (tids[-1] - 1, steps[-1], diff + r.out[-2500:])

    def violation(self, what, data):
        for k in self.findings:
            if k["match"] in what or k["match"] in json.dumps(data.get("what")):
                if k["id"] not in self.known:
                    self.known.append(k["id"])
                    print("KNOWN-FINDING: property=%s %s" % (self.id, k["text"]))
                return
        d = VERIF / "evidence" / "replay"
        d.mkdir(parents=True, exist_ok=True)
        p = d / ("%s-%d.json" % (self.id, len(self.violations) + 1))
        p.write_text(json.dumps({"property": self.id, "what": what, **data}, indent=1, default=str))
        self.violations.append(what)
        print("VIOLATION property=%s replay=%s" % (self.id, p))
        print("  " + what[:600])
        sys.stdout.flush()

    def sample(self, x):
        if len(self.samples) < 3:
            s = json.dumps(x, default=str)
            self.samples.append(x if len(s) < 3000 else s[:3000])

    def finish(self):
        d = VERIF / "evidence"
        d.mkdir(exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples, **self.notes}
        if self.known:
            cov["known_findings"] = self.known
        (d / (self.id + ".json")).write_text(json.dumps({
            "property": self.id, "tier": "thorough" if self.thorough else "quick", "seed": SEED, "level": self.level,
            "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations)}, indent=1, default=str))
        print("%s: %d traces, %d states, %d violations, %.1f s" % (self.id, self.traces, self.states, len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0
