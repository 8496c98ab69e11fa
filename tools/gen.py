#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json (both are committed)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = "crates/analyzer/src/analysis/"
L = "crates/lsp-server/src/"
I = "crates/ir/src/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, level_note, technique):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, observe=observe, level_note=level_note, technique=technique))
exec(open(os.path.join(ROOT, "tools", "props.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None},
        }) + "\n")
claimed = [p for p in P if p["id"] in CLAIMED]
man = {
    "version": 1,
    "setup_cmd": "bash ./setup.sh",
    "hooks": {"guard": "none", "enable": "no hooks are needed: every check drives the crates through their public API", "source_commits": []},
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"bash ./check.sh {p['id']} quick",
        "thorough_cmd": f"bash ./check.sh {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": p["technique"], "level": "model_checking", "level_note": p["level_note"],
    } for p in claimed],
    "not_applicable": [{"property": p["id"], "reason": NOT_APPLICABLE.get(p["id"], "check not built yet")}
                       for p in P if p["id"] not in CLAIMED],
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1); f.write("\n")
print(len(P), "properties,", len(claimed), "claimed")
