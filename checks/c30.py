"""C30: the settings of an experiment in Python."""
import core, pyutil

MC = "SPECIFICATION Spec\nCONSTANTS MaxOps=%d\nINVARIANTS FirstStays OneValue Unambiguous Conflict\nCHECK_DEADLOCK FALSE\n"
GEN = "SPECIFICATION Spec\nCONSTANTS Len1=%d\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"


def main():
    c = core.Check("C30", assumptions=["the clock printed with the progress is replaced by a word", "values of options hold no colon outside quotes"])
    c.model("SettingsMC", MC % c.n(3, 4), workers=8, mem="6g")
    behs = []
    for k, (n, num) in enumerate([(12, c.n(1500, 9000)), (150, c.n(60, 600)), (400, c.n(24, 240))]):
        b, r = core.behaviours("SettingsGen", GEN % n, num, n + 3, core.SEED + 300 + k)
        behs += b
    traces, behs = pyutil.split(c, "settings", pyutil.run("settings", behs), behs)
    if traces:
        for k in ("args", "options", "files", "search"):
            c.sample(next((t["ev"][:2] for t, b in zip(traces, behs) if b["kind"] == k), None))
        c.conform("SettingsTrace", traces, remake=lambda q: pyutil.run("settings", [behs[q]])[0], describe=lambda q: behs[q], chunk=200)
    return c.finish()
