"""Writes properties.jsonl and MANIFEST.json."""

import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))

from props import PROPS  # noqa: E402

PY = "/opt/venv/bin/python"


def main():
    checks = []
    with open(os.path.join(VERIF, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            assert os.path.exists(os.path.join(VERIF, "checks", p["id"].lower() + ".py")), p["id"]
            line = {
                "id": p["id"],
                "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": p["files"],
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]],
                    "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                    "observe_at": p["observe"],
                    "hook_needed": None,
                },
            }
            f.write(json.dumps(line) + "\n")
            cmd = f"{PY} mc/run.py {p['id']} --tier "
            checks.append(
                {
                    "property": p["id"],
                    "quick_cmd": cmd + "quick",
                    "thorough_cmd": cmd + "thorough",
                    "technique": p["technique"],
                    "level": p["level"],
                    "level_note": p["note"] or "Exhaustive within the bounds of the families listed in DESIGN.md.",
                }
            )
    manifest = {
        "version": 1,
        "setup_cmd": f"{PY} -c \"import jinja2, yaml\"",
        "checks": checks,
        "not_applicable": [],
        "notes": "The checks import the package from /repo (MAU_REPO changes the path); nothing has to be built.",
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
