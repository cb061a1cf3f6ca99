#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (development aid; no check runs it)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L2 = "src/linestring_2d.rs"
CH = "src/linestring_2d/convex_hull.rs"
IS = "src/linestring_2d/intersection.rs"
II = "src/linestring_2d/indexed_intersection.rs"
S2 = "src/linestring_2d/simplify.rs"
L3 = "src/linestring_3d.rs"
S3 = "src/linestring_3d/simplify.rs"
SH = "src/shape.rs"
I2 = "src/linestring_2d/impls.rs"
I3 = "src/linestring_3d/impls.rs"
LIB = "src/lib.rs"

P = []

def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, observe=observe or [], na=na))

BOUND = "Bounded: holds on every case inside the stated bounds, nothing is claimed outside them. The oracle is an exact model in integer arithmetic, executed side by side with the real code (compiled from /repo) on every case."

exec(open(os.path.join(ROOT, "tools", "table.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None},
        }) + "\n")
m = {
    "version": 1,
    "setup_cmd": "./run.sh build",
    "checks": [],
    "not_applicable": [],
    "notes": "No hooks in /repo: everything is observed through the crate's public API. The thread pool and the hash seed are controlled by vendored, patched copies of two dependencies (vendor/rayon-core, vendor/ahash), which only the harness crate uses. See DESIGN.md.",
}
for p in P:
    if p["na"]:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        continue
    m["checks"].append({
        "property": p["id"],
        "quick_cmd": f"./run.sh {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {p['id']}",
        "technique": p["technique"],
        "level": "model_checking",
        "level_note": p["note"],
        "evidence_file": f"evidence/{p['id']}.json",
    })
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(m["checks"]), "checks")
