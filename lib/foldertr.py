"""Result folders (C16): several real processes, interleaved at their file system calls."""
import json, os, random, re, select, shutil, subprocess
import build, core


class Proc:
    def __init__(self, d, n, reqs, outer):
        self.n, self.reqs = n, reqs
        L = []
        # problems: (function n, instance k+1), so that the data tell whose they are
        L.append(["suite", 0, "bbob", "instances: 1-15", "dimensions: 2"])
        for k, r in enumerate(reqs):
            L += [["gate", "%s@begin@%d" % (outer, k)], ["obs", k, "bbob", "outer_folder: %s result_folder: %s" % (outer, r)], ["gate", "%s@end@%d" % (outer, k)]]
        for k, r in enumerate(reqs):
            L += [["getfdi", 0, n, 2, k + 1, 0], ["add", 0, k], ["eval", 0, "1", "2"], ["eval", 0, "0", "1"], ["pfree", 0], ["ofree", k]]
        L.append(["sfree", 0])
        self.L = L
        (d / ("p%d.script" % n)).write_text("".join("\t".join(map(str, l)) + "\n" for l in L))
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        env = dict(os.environ, LD_PRELOAD=str(build.shim()), GATE_MATCH=outer, GATE_OUT=str(w1), GATE_IN=str(r2))
        self.p = subprocess.Popen([str(build.driver()), "p%d.script" % n, "p%d.events" % n], cwd=d, env=env, pass_fds=(w1, r2), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        os.close(w1); os.close(r2)
        self.out, self.inn, self.buf = r1, w2, b""
        self.at = None
        self.wait()

    def wait(self):
        """until the next gate, or the end (at = None)"""
        while b"\n" not in self.buf:
            if not select.select([self.out], [], [], 60)[0]:
                self.p.kill()                   # neither at a gate nor at its end
            t = os.read(self.out, 4096)
            if not t:
                self.at = None
                return
            self.buf += t
        l, self.buf = self.buf.split(b"\n", 1)
        self.at = l.decode()

    def go(self):
        os.write(self.inn, b"g")
        self.wait()

    def close(self):
        os.close(self.out); os.close(self.inn)
        self.err = self.p.stderr.read().decode(errors="replace")
        self.p.stderr.close()
        self.rc = self.p.wait()


class Job:
    def __init__(self, beh):
        self.b, self.skip = beh, None
        if "file:X/A" in beh["pre"]:
            # nothing can be created below a file
            self.b = dict(beh, req=[["B" if r == "A/C" else r for r in q] for q in beh["req"]])

    def trace(self):
        d = core.scratch() / ("fo-%d" % random.Random().randrange(10**12))
        d.mkdir(parents=True)
        outer = "X"
        for f in self.b["pre"]:
            if f.startswith("file:"):
                f = f[5:]
                (d / f).parent.mkdir(parents=True, exist_ok=True)
                (d / f).write_text("old")
            else:
                (d / f).mkdir(parents=True, exist_ok=True)
                (d / f / "old.txt").write_text("old")
        keep = {str(p.relative_to(d)): p.read_text() for p in d.rglob("*") if p.is_file()}
        names = sorted({r for q in self.b["req"] for r in q})
        outer = "X"

        def dirs():
            o = []
            for r in names:
                for k in range(0, 41):
                    n = r if k == 0 else "%s-%04d" % (r, k)
                    if os.path.lexists(d / outer / n):
                        o.append(outer + "/" + n)
            return sorted(set(o))
        ev = []
        P = [Proc(d, n + 1, q, outer) for n, q in enumerate(self.b["req"])]
        sched = list(self.b["sched"])
        turn = 0

        def folder(p, k):
            for l in (d / ("p%d.events" % p.n)).read_text().splitlines():
                try:
                    e = json.loads(l)
                except ValueError:
                    continue
                if e["l"] == 3 + 3 * k:
                    return e.get("folder")
        while any(p.at for p in P):
            live = [p for p in P if p.at]
            if sched:
                n = sched.pop(0)
                p = P[n - 1] if P[n - 1].at else live[0]
            else:
                p = live[turn % len(live)]; turn += 1
            m = re.match(r"access X@(begin|end)@(\d+)", p.at)
            if m and m[1] == "begin":
                ev.append({"op": "begin", "p": p.n, "base": outer + "/" + p.reqs[int(m[2])], "dirs": dirs()})
            elif m:
                f = folder(p, int(m[2]))
                ev.append({"op": "end", "p": p.n, "f": f.rstrip("/") if f else "none", "who": "f%d-i%d" % (p.n, int(m[2]) + 1), "dirs": dirs()})
            p.go()
        for p in P:
            p.close()
        if any(p.rc for p in P):
            ev.append({"op": "died", "rc": [p.rc for p in P], "err": [p.err[-200:] for p in P]})
        data = []
        old = int(all((d / f).is_file() and (d / f).read_text() == t for f, t in keep.items()))
        for f in sorted(d.rglob("*.info")):
            fn = None
            who = []
            for l in f.read_text().splitlines():
                m = re.search(r"funcId = '?(\d+)", l)
                if m:
                    fn = m[1]
                who += ["f%s-i%s" % (fn, t[0]) for t in re.findall(r", (\d+):2\|", l)]
            data += [{"f": str(f.parent.relative_to(d)), "data": w} for w in who] or [{"f": str(f), "data": "?"}]
        ev.append({"op": "disk", "old": old, "data": data})
        shutil.rmtree(d, ignore_errors=True)
        return {"ev": ev}
