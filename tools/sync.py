"""Writes properties.jsonl and MANIFEST.json from harness/registry.py."""
import json, sys
from pathlib import Path
V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / "harness"))
from registry import PROPERTIES
with open(V / "properties.jsonl", "w") as h:
    for i, p in PROPERTIES.items():
        assert len(p["title"]) <= 80, (i, len(p["title"]))
        a = {"files": p["files"], "mechanism": p["mechanism"]}
        if p["state"]: a["state"] = p["state"]
        if p["observe"]: a["observe_at"] = p["observe"]
        h.write(json.dumps({"id": i, "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": a}) + "\n")
TECH = "TLA+ specification checked with TLC; behaviours of the real code validated against it by trace checking"
NOTE = ("TLC explores the specification exhaustively within small bounds; conformance of the code is checked on the "
        "enumerated and seeded-random inputs, so the strength is that of bounded exhaustive plus randomised model-based testing. ")
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
                 "technique": TECH, "level": p["level"], "level_note": (NOTE + p["note"]).strip()}
                for i, p in PROPERTIES.items()],
     "not_applicable": []}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
