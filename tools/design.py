"""Rewrites the generated part of DESIGN.md (families of each check) from the
evidence of the last quick run and, when given, of a directory with the evidence
of the thorough runs: python tools/design.py [directory]"""

import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [VERIF, os.path.join(VERIF, "tools")]

from props import PROPS  # noqa: E402

BEGIN = "<!-- families: generated by tools/design.py -->"
SEEDS = "<!-- seeds -->"
END = "<!-- end of families -->"
THOROUGH = os.path.join(VERIF, "tools", "thorough.json")


def evidence(path):
    try:
        with open(path, encoding="utf-8") as f:
            return json.load(f)
    except FileNotFoundError:
        return None


def main():
    # The results of thorough runs are kept, as they take long.
    kept = evidence(THOROUGH) or {}
    if len(sys.argv) > 1:
        for p in PROPS:
            e = evidence(os.path.join(sys.argv[1], p["id"] + ".json"))
            if e and e["tier"] == "thorough":
                kept[p["id"]] = {"wall": round(e["wall_s"]), "families": {k: v["evaluated"] for k, v in e["coverage"].get("families", {}).items()}, "states": e["coverage"].get("states"), "transitions": e["coverage"].get("transitions")}
        with open(THOROUGH, "w", encoding="utf-8") as f:
            json.dump(kept, f, indent=1, sort_keys=True)
            f.write("\n")
    lines = [BEGIN, ""]
    for p in PROPS:
        module = importlib.import_module("checks." + p["id"].lower())
        quick = evidence(os.path.join(VERIF, "evidence", p["id"] + ".json"))
        thorough = kept.get(p["id"])
        seconds = [f"quick about {max(1, round(quick['wall_s']))} s" if quick and quick["tier"] == "quick" else None, f"thorough about {max(1, thorough['wall'])} s" if thorough else None]
        lines.append(f"**{p['id']}** {p['title']}. " + ", ".join(s for s in seconds if s) + " on 8 cores.")
        lines.append("")
        done = quick["coverage"].get("families", {}) if quick and quick["tier"] == "quick" else {}
        for f in module.families("thorough"):
            n = done.get(f.name, {}).get("evaluated")
            m = thorough["families"].get(f.name) if thorough else None
            counts = " / ".join(str(x) for x in (n, m) if x is not None)
            lines.append(f"- `{f.name}`: {f.rule}" + (f" ({counts})" if counts else ""))
        if quick and quick["coverage"].get("states"):
            lines.append(f"- models: {quick['coverage']['states']} states, {quick['coverage']['transitions']} transitions" + (f" / {thorough['states']} states, {thorough['transitions']} transitions" if thorough else ""))
        lines.append("")
    lines.append(END)
    path = os.path.join(VERIF, "DESIGN.md")
    with open(path, encoding="utf-8") as f:
        text = f.read()
    head, _, rest = text.partition(BEGIN)
    _, _, tail = rest.partition(END)
    # The table of the planted bugs.
    seeds = os.path.join(VERIF, "seeded")
    rows = ["| change | check that catches it | what it needs |", "|---|---|---|"]
    for name in sorted(os.listdir(seeds)):
        with open(os.path.join(seeds, name, "meta.json"), encoding="utf-8") as f:
            meta = json.load(f)
        rows.append(f"| `{name}` | {meta['property']} | {meta['needs']} |")
    tail = tail.partition(SEEDS)[0] + SEEDS + "\n\n" + "\n".join(rows) + "\n"
    with open(path, "w", encoding="utf-8") as f:
        f.write(head + "\n".join(lines) + tail)


if __name__ == "__main__":
    main()
