"""writes MANIFEST.json from the property classes in harness/"""
import json, os, sys
sys.path.insert(0, "/verif"); sys.path.insert(0, "/repo")
os.environ["MPLBACKEND"] = "Agg"
from harness import registry

ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
have = registry.ids()
checks, na = [], []
for i in ids:
    if i in have and not getattr(have[i], "draft", False):
        c = have[i]
        checks.append({
            "property": i,
            "quick_cmd": f"/opt/venv/bin/python check.py {i}",
            "thorough_cmd": f"VERIF_TIER=thorough /opt/venv/bin/python check.py {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": getattr(c, "technique", None) or
                "TLA+ model checked with TLC; traces of the real code validated against it by TLC",
            "level": "model_checking",
            "level_note": c.level_note or (
                "The bounded model is explored exhaustively by TLC; every model scenario and a seeded random "
                "extension of them is run through the real code via its public API and the recorded observations "
                "are validated by TLC against the same specification. Trusts TLC, the projection in "
                "harness/project.py and the product writers; cases outside the stated bounds are sampled, not exhausted."),
        })
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python tools/setup.py",
    "checks": checks,
    "not_applicable": na,
    "notes": "TLA+ specifications in spec/, harness in harness/, driver check.py <ID> [--tier T] [--replay FILE]. "
             "No hooks in /repo: the public API exposes the abstract state.",
}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", [n["property"] for n in na])
