"""Writes properties.jsonl and MANIFEST.json from table.py."""
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import table  # noqa: E402

root = os.path.dirname(here)
NOTE = (
    "exploration: generated inputs against an explicit oracle; bounds and "
    "case counts are in DESIGN.md and the evidence file"
)
props = sorted(table.PROPS, key=lambda p: p["id"])
for p in props:
    assert len(p["title"]) <= 80, p["title"]
    assert p["statement"].count(". ") <= 3, p["id"]
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
tech = getattr(table, "TECH", {})
checks = []
for p in props:
    if p["id"] in {n["property"] for n in table.NOT_APPLICABLE}:
        continue
    checks.append(
        {
            "property": p["id"],
            "quick_cmd": f"./check.py {p['id']} --tier quick",
            "thorough_cmd": f"./check.py {p['id']} --tier thorough",
            "technique": tech.get(
                p["id"],
                "property-based testing (Hypothesis): generated models, "
                "constraint matrix compared with a reference model",
            ),
            "level": "exploration",
            "level_note": NOTE,
        }
    )
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(
        {
            "version": 1,
            "setup_cmd": "./setup.sh",
            "checks": checks,
            "not_applicable": table.NOT_APPLICABLE,
            "notes": "See DESIGN.md. Known findings: known_findings.json.",
        },
        f,
        indent=1,
    )
    f.write("\n")
print(len(checks), "checks")


# the tables of DESIGN.md
path = os.path.join(root, "DESIGN.md")
text = open(path).read()


def fill(mark, lines):
    global text
    a = text.index(f"<!-- {mark} -->") + len(f"<!-- {mark} -->")
    b = text.index("<!-- end -->", a)
    text = text[:a] + "\n" + "\n".join(lines) + "\n" + text[b:]


with open(os.path.join(root, "known_findings.json")) as f:
    fill("fixes", [
        f"* {x['property']} {x['commit'][:7]}: {x['failed']}"
        for x in json.load(f)["findings"] if x["status"] == "fixed"
    ])
lines = ["| | property | needs | caught by |", "|-|-|-|-|"]
folder = os.path.join(root, "seeded")
for b in sorted(os.listdir(folder)):
    with open(os.path.join(folder, b, "meta.json")) as f:
        x = json.load(f)
    lines.append(f"| {b} | {x['property']} | {x['needs']} |"
                 f" {x.get('caught_by', x['property'])} |")
fill("bugs", lines)
with open(path, "w") as f:
    f.write(text)
