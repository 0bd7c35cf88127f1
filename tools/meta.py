"""Writes properties.jsonl and MANIFEST.json from tools/properties.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from properties import P, NOT_APPLICABLE  # noqa: E402
V = os.path.dirname(HERE)

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": " ".join(p["statement"].split()),
            "quantifier": {"over": p["over"], "text": " ".join(p["quant"].split())},
            "why_tests_cant": " ".join(p["why"].split()),
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }) + "\n")
man = {
    "version": 1,
    "setup_cmd": "cd /verif && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/verif:/repo /opt/venv/bin/python -c 'import rv.run, theseus, torchlie, torchkin'",
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"bash check.sh {p['id']} quick",
        "thorough_cmd": f"bash check.sh {p['id']} thorough",
        "technique": p["tech"],
        "level": "exploration",
        "level_note": " ".join(p["note"].split()),
    } for p in P if not p.get("na")],
    "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p.get("na")]
    + NOT_APPLICABLE,
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(P), "properties")
