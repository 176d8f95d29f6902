"""Builds the code under test from /repo's working tree into a scratch directory.

Everything is keyed by a hash of the sources, so the several checks of one run share
a build, and a change to any file under /repo/src gives a new one.
"""
import fcntl, hashlib, os, re, shutil, subprocess, sys
from pathlib import Path

REPO = Path(os.environ.get("COCO_REPO", "/repo"))
VERIF = Path(__file__).resolve().parent.parent
WORK = VERIF / "_work"
CORE = ["coco_random.c", "coco_suite.c", "coco_observer.c", "coco_archive.c"]
VERSION_C = '\nconst char *coco_version = "0.0.0-verif";\n'


class BuildError(Exception):
    pass


def _core_files():
    """The list scripts/fabricate amalgamates (read from it, so that a new core file is seen)."""
    try:
        t = (REPO / "scripts/fabricate").read_text()
        m = re.search(r"CORE_FILES\s*=\s*\[(.*?)\]", t, re.S)
        fs = [Path(x).name for x in re.findall(r"[\"']([^\"']+\.c)[\"']", m.group(1))]
        return [x for x in fs if x != "coco_version.c"] or CORE
    except Exception:
        return CORE


def _amalgamate(out, runtime="coco_runtime_c.c"):
    seen = set()
    src = REPO / "src"

    def proc(path, w):
        path = path.resolve()
        if path in seen:
            return
        seen.add(path)
        if path.name == "coco_version.c":
            w.append(VERSION_C)
            return
        for line in path.read_text(errors="replace").splitlines(True):
            m = re.match(r'\s*#\s*include\s+"(.*)"', line)
            if m:
                inc = path.parent / m.group(1)
                if inc.name == "coco_version.c" or inc.exists():
                    proc(inc, w)
                else:
                    w.append(line)
            else:
                w.append(line)
        w.append("\n")

    w = []
    for fn in _core_files() + ["coco_version.c", runtime]:
        proc(src / fn, w)
    (out / "coco.c").write_text("".join(w))
    seen.clear()
    w = []
    proc(src / "coco.h", w)
    (out / "coco.h").write_text("".join(w))


def _hash(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(files):
        h.update(str(p).encode()); h.update(b"\0"); h.update(p.read_bytes()); h.update(b"\0")
    return h.hexdigest()[:20]


def _sources():
    s = [p for p in (REPO / "src").rglob("*") if p.is_file() and p.suffix in (".c", ".h")]
    return s + [REPO / "scripts/fabricate"]


def _run(cmd, cwd, env=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(map(str, cmd)), r.stdout[-4000:]))


def _cached(kind, key, make):
    WORK.mkdir(exist_ok=True)
    d = WORK / ("%s-%s" % (kind, key))
    with open(WORK / (".lock-" + kind), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not (d / ".ok").exists():
            for old in sorted(WORK.glob(kind + "-*"), key=lambda p: p.stat().st_mtime)[:-3]:
                shutil.rmtree(old, ignore_errors=True)
            if d.exists():
                shutil.rmtree(d)
            tmp = WORK / (".tmp-%s-%d" % (kind, os.getpid()))
            if tmp.exists():
                shutil.rmtree(tmp)
            tmp.mkdir()
            try:
                make(tmp)
            except BaseException:
                shutil.rmtree(tmp, ignore_errors=True)
                raise
            (tmp / ".ok").write_text("ok")
            tmp.rename(d)
        else:
            os.utime(d)
    return d


def driver(san=False):
    """Path of the scripted driver, linked with the amalgamation of /repo/src."""
    h = VERIF / "harness"
    key = _hash(_sources() + [h / "driver.c", h / "files.h"], "san" if san else "plain")

    def make(out):
        _amalgamate(out)
        flags = ["-g", "-O1", "-w"]
        if san:
            flags += ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
        _run(["gcc", *flags, "-I", str(out), *(["-include", str(h / "files.h")] if san else []), "-c", "-o", str(out / "coco.o"), str(out / "coco.c")], out)
        _run(["gcc", *flags, "-I", str(out), "-o", str(out / "driver"), str(h / "driver.c"), str(out / "coco.o"), "-lm"], out)

    return _cached("drvsan" if san else "drv", key, make) / "driver"


def crasher():
    """The driver with every output call of the library turned into a point at which the process can die."""
    h = VERIF / "harness"
    key = _hash(_sources() + [h / "driver.c", h / "crashpoint.c", h / "crashpoint.h"], "crash")

    def make(out):
        _amalgamate(out)
        _run(["gcc", "-g", "-O1", "-w", "-I", str(out), "-include", str(h / "crashpoint.h"), "-c", "-o", str(out / "coco.o"), str(out / "coco.c")], out)
        _run(["gcc", "-g", "-O1", "-w", "-I", str(out), "-o", str(out / "driver"), str(h / "driver.c"), str(h / "crashpoint.c"), str(out / "coco.o"), "-lm"], out)

    return _cached("drvcrash", key, make) / "driver"


def shim():
    """LD_PRELOAD shim that injects file-system adversary steps."""
    h = VERIF / "harness"
    key = _hash([h / "shim.c"])

    def make(out):
        _run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", str(out / "shim.so"), str(h / "shim.c"), "-ldl"], out)

    return _cached("shim", key, make) / "shim.so"


def cocoex():
    """Directory to put on PYTHONPATH of /opt/vp/venv's python: the package cocoex, compiled from /repo."""
    pk = REPO / "build/python/src/cocoex"
    files = [p for p in pk.rglob("*") if p.is_file() and p.suffix in (".py", ".pyx", ".pxd") and p.name != "_version.py"]
    key = _hash(_sources() + files, "cocoex2")

    def make(out):
        dst = out / "cocoex"
        shutil.copytree(pk, dst, ignore=shutil.ignore_patterns("coco.c", "coco.h", "*.so", "__pycache__", "_version.py"))
        (dst / "_version.py").write_text('__version__ = "0.0.0"\nversion = __version__\n')
        _amalgamate(dst)
        py = "/opt/vp/venv/bin/python"
        for m in ("interface", "bare_problem"):
            _run([py, "-m", "cython", "-3", "-o", m + ".c", m + ".pyx"], dst)
        inc = subprocess.run([py, "-c", "import sysconfig,numpy;print(sysconfig.get_paths()['include']);print(numpy.get_include());print(sysconfig.get_config_var('EXT_SUFFIX'))"],
                             capture_output=True, text=True).stdout.split()
        cc = ["gcc", "-O1", "-w", "-shared", "-fPIC", "-I", str(dst), "-I", inc[0], "-I", inc[1]]
        _run(["gcc", "-O1", "-w", "-c", "-fPIC", "-o", "coco.o", "coco.c"], dst)
        for m in ("interface", "bare_problem"):
            _run(cc + ["-o", str(dst / (m + inc[2])), m + ".c", "coco.o", "-lm"], dst)

    return _cached("cocoex", key, make)


if __name__ == "__main__":
    for a in sys.argv[1:] or ["driver"]:
        print(globals()[a]() if a != "san" else driver(True))


def java():
    """The Java classes, their native library and the interpreter of scripts: (class path, library)."""
    j = REPO / "build/java"
    src = [j / n for n in ("Benchmark.java", "CocoJNI.java", "Observer.java", "Problem.java", "Suite.java")]
    h = VERIF / "harness/java/Interp.java"
    key = _hash(_sources() + sorted(j.glob("*.java")) + [j / "CocoJNI.c", h])

    def make(out):
        _amalgamate(out)
        _run(["javac", "-nowarn", "-h", str(out), "-d", str(out), *map(str, src), str(h)], out)
        home = Path(os.path.realpath(shutil.which("javac"))).parent.parent
        shutil.copy(j / "CocoJNI.c", out / "CocoJNI.c")
        _run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-I", str(out), "-I", str(home / "include"), "-I", str(home / "include/linux"), "-o", str(out / "libCocoJNI.so"),
              str(out / "CocoJNI.c"), str(out / "coco.c"), "-lm"] if '"coco.c"' not in (j / "CocoJNI.c").read_text() else
             ["gcc", "-O1", "-w", "-shared", "-fPIC", "-I", str(out), "-I", str(home / "include"), "-I", str(home / "include/linux"), "-o", str(out / "libCocoJNI.so"), str(out / "CocoJNI.c"), "-lm"], out)

    d = _cached("java", key, make)
    return d, d / "libCocoJNI.so"


def matlab():
    """The interpreter of scripts linked with the MATLAB interface and a stand-in for MATLAB, with sanitizers."""
    h = VERIF / "harness/matlab"
    f = REPO / "build/matlab/cocoCall.c"
    key = _hash(_sources() + [f, h / "mex.h", h / "interp.c"], "1")

    def make(out):
        _amalgamate(out, "coco_runtime_matlab.c")
        shutil.copy(f, out / "cocoCall.c")
        _run(["gcc", "-g", "-O1", "-w", "-fsanitize=address,undefined", "-fno-sanitize=alignment", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer", "-I", str(out), "-I", str(h),
              "-o", str(out / "interp"), str(h / "interp.c"), str(out / "cocoCall.c"), "-lm"], out)

    return _cached("matlab", key, make) / "interp"


def _bindings(header):
    """What bindgen makes of the header, as far as functions and opaque types are concerned."""
    import re
    t = re.sub(r"/\*.*?\*/|//[^\n]*", "", header, flags=re.S)
    prim = {"void": "::std::os::raw::c_void", "char": "::std::os::raw::c_char", "int": "::std::os::raw::c_int", "size_t": "usize", "double": "f64", "long": "::std::os::raw::c_long",
            "uint32_t": "u32", "int32_t": "i32", "unsigned long": "::std::os::raw::c_ulong", "unsigned int": "::std::os::raw::c_uint"}
    opaque = set()

    def ty(c):
        c = c.replace("COCO_NORETURN", "").strip()
        stars, const = c.count("*"), "const" in c.split("*")[0].split()
        b = " ".join(w for w in c.replace("*", " ").split() if w != "const")
        if b not in prim:
            opaque.add(b)
        b = prim.get(b, b)
        for n in range(stars):
            b = ("*const " if const and n == 0 else "*mut ") + b
        return b
    out = ['extern "C" {', "pub static mut coco_version: *const ::std::os::raw::c_char;".replace("mut ", "")]
    for r, n, a in re.findall(r"^([a-z][\w\s\*]*?[\s\*])(\w+)\(([^;{]*?)\);", t, flags=re.M | re.S):
        args = []
        if "typedef" in r or "(" in a:
            continue
        for q in a.split(","):
            q = " ".join(q.split())
            if q == "...":
                args.append("...")
            elif q != "void" and q:
                m = re.match(r"(.*?)(\w+)$", q)
                args.append("arg%d: %s" % (len(args), ty(m.group(1))))
        ret = ty(r)
        out.append("pub fn %s(%s)%s;" % (n, ", ".join(args), "" if ret == prim["void"] else " -> " + ret))
    out.append("}")
    for o in sorted(opaque):
        out.append("#[repr(C)] #[derive(Debug)] pub struct %s { _unused: [u8; 0] }" % o)
    return "\n".join(out) + "\n"


def rust():
    """The Rust crate (its bindings made from coco.h here, bindgen is not available) and the interpreter of scripts."""
    q = REPO / "build/rust"
    src = sorted(p for p in q.rglob("*") if p.suffix in (".rs", ".c", ".h") and "vendor" not in p.parts and "target" not in p.parts)
    h = VERIF / "harness/rust/interp.rs"
    key = _hash(_sources() + src + [h], "rust")

    def make(out):
        v = out / "vendor"
        v.mkdir()
        _amalgamate(v)
        shutil.copy(REPO / "src/coco_internal.h", v)
        for n in ("wrapper.c", "wrapper.h"):
            shutil.copy(q / "coco-sys" / n, out)
        (out / "coco_sys.rs").write_text(_bindings((v / "coco.h").read_text() + (out / "wrapper.h").read_text()))
        _run(["gcc", "-O1", "-w", "-c", "-o", "coco.o", "vendor/coco.c"], out)
        _run(["gcc", "-O1", "-w", "-c", "-o", "wrapper.o", "wrapper.c"], out)
        _run(["ar", "rcs", "libcoco.a", "coco.o", "wrapper.o"], out)
        env = dict(os.environ, OUT_DIR=str(out))
        r = ["rustc", "--edition", "2021", "--cap-lints", "allow", "-O", "-L", str(out)]
        _run(r + ["--crate-type", "rlib", "--crate-name", "coco_sys", str(q / "coco-sys/src/lib.rs")], out, env)
        _run(r + ["--crate-type", "rlib", "--crate-name", "coco_rs", "--extern", "coco_sys=libcoco_sys.rlib", str(q / "src/lib.rs")], out, env)
        _run(r + ["--crate-name", "interp", "--extern", "coco_rs=libcoco_rs.rlib", "--extern", "coco_sys=libcoco_sys.rlib", "-l", "static=coco", "-l", "m", str(h)], out, env)

    return _cached("rust", key, make) / "interp"
