#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the records in tools/props.py."""
import json, subprocess, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, "tools"))
from props import PROPS, NOT_APPLICABLE
import re
def three_sentences(text):
    s = re.split(r"(?<=\.)\s+(?=[A-Z])", text.strip())
    groups = [s[i * len(s) // 3:(i + 1) * len(s) // 3] for i in range(3)] if len(s) > 3 else [[x] for x in s]
    low = lambda x: x if x.split()[0] in ("AsciiDoc", "HTML", "CSV") else x[0].lower() + x[1:]
    return " ".join("; ".join([g[0].rstrip(".")] + [low(x).rstrip(".") for x in g[1:]]) + "." for g in groups if g)
for p in PROPS:
    p["statement"] = three_sentences(p["statement"])
    assert len(p["title"]) <= 80, p["id"]
    for k in ("state", "observe_at"):
        if isinstance(p["anchors"].get(k), str):
            p["anchors"][k] = [{"name": x.strip()} for x in p["anchors"][k].split(",")] if k == "state" else [p["anchors"][k]]
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        if isinstance(p["quantifier"]["over"], str):
            p["quantifier"]["over"] = [p["quantifier"]["over"]]
        rec = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        f.write(json.dumps(rec) + "\n")
checks = []
for p in PROPS:
    if p.get("claimed", True):
        checks.append({
            "property": p["id"],
            "quick_cmd": f"./run.sh {p['id']} quick",
            "thorough_cmd": f"./run.sh {p['id']} thorough",
            "technique": p["technique"],
            "level": p["level"],
            "level_note": p["level_note"],
            "evidence_file": f"evidence/{p['id']}.json",
        })
fixes = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout
m = {"version": 1, "setup_cmd": "./run.sh --build", "checks": checks, "not_applicable": NOT_APPLICABLE}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
from design import write
write(root, PROPS, NOT_APPLICABLE)
