"""C16: result folders are unique and never reused, also with processes in parallel."""
import json, re
import core, build, foldertr

MC = "SPECIFICATION Spec\nCONSTANTS Procs=%s PerProc=%d\nINVARIANTS Unique NotOld AllRight\nCHECK_DEADLOCK FALSE\n"
GEN = "SPECIFICATION Spec\nCONSTANTS N=%d Len1=%d Random=%s\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"


def main():
    c = core.Check("C16", assumptions=["processes are interleaved at their file system calls (mkdir, stat, access, open, ...)"])
    build.driver(); build.shim()
    c.model("FoldersMC", MC % (c.n("{1,2}", "{1,2,3}"), 2), workers=8, mem="8g")
    # every schedule of two processes up to a length
    r = core.tlc("FoldersGen", GEN % (2, c.n(9, 12), "FALSE"), workers=1)
    behs = [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'<<"BEH", "(.*?)">>', r.out)]
    c.states += r.distinct; c.transitions += r.generated
    c.notes["exhaustive_schedules"] = len(behs)
    b2, r = core.behaviours("FoldersGen", GEN % (2, 30, "TRUE"), c.n(250, 2000), 31, core.SEED + 16)
    b3, r = core.behaviours("FoldersGen", GEN % (3, 40, "TRUE"), c.n(250, 2000), 41, core.SEED + 17)
    jobs = [foldertr.Job(b) for b in behs + b2 + b3]
    traces = core.pmap(lambda j: j.trace(), jobs, 12)
    c.sample(traces[-1])
    c.conform("FoldersTrace", traces, remake=lambda q: jobs[q].trace(), describe=lambda q: jobs[q].b, chunk=400)
    return c.finish()
