"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, sys
from pathlib import Path
V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / "tools"))
from props import P
with open(V / "properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": p["mech"]}}) + "\n")
ck = [p for p in P if (V / "checks" / (p["id"].lower() + ".py")).exists()]
m = {"version": 1, "setup_cmd": "python3 lib/build.py driver",
     "hooks": {"guard": "COCO_VERIF", "enable": "no hooks are needed: the checks use the public interface and the written files", "source_commits": []},
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                 "technique": p["how"], "level": p["level"], "level_note": p["note"]} for p in ck],
     "not_applicable": [{"property": p["id"], "reason": "not claimed: its specification and conformance check are not built (yet); the family does apply"} for p in P if p not in ck]}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(ck), "claimed of", len(P), [p["id"] for p in P if len(p["title"]) > 80 or p["statement"].count(". ") > 2])
