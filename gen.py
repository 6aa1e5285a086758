#!/usr/bin/env python3
"""The list of properties and of the checks that decide them; writes properties.jsonl, MANIFEST.json and checks.map."""
import json, os

P = []          # properties
CHECKS = {}     # id -> (package, level, technique, note)
NA = {}         # id -> reason


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(text.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": list(observe), "hook_needed": hook,
        },
    })


def check(id, package, level, technique, note):
    CHECKS[id] = (package, level, technique, " ".join(note.split()))


HERE = os.path.dirname(os.path.abspath(__file__))
for f in sorted(os.listdir(f"{HERE}/props")):
    if f.endswith(".py"):
        exec(compile(open(f"{HERE}/props/{f}").read(), f, "exec"))

ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
for p in P:
    assert len(p["title"]) <= 80, p["title"]
    assert p["statement"].count(". ") <= 2, p["id"]
    for f in p["anchors"]["files"]:
        assert os.path.exists(f"/repo/{f}"), f
with open(f"{HERE}/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
checks = [{
    "property": i,
    "quick_cmd": f"./check {i}",
    "thorough_cmd": f"VERIF_TIER=thorough ./check {i}",
    "evidence_file": f"evidence/{i}.json",
    "technique": CHECKS[i][2], "level": CHECKS[i][1], "level_note": CHECKS[i][3],
} for i in ids if i in CHECKS]
m = {
    "version": 1, "setup_cmd": "./setup",
    "checks": checks,
    "not_applicable": [{"property": i, "reason": NA.get(i, "its check is not finished yet")} for i in ids if i not in CHECKS],
    "notes": "All checks go through ./check <ID>, which lays out build/ws from /repo's working tree (mirror.py), builds one harness of mc/ against it and runs it. See DESIGN.md.",
}
HOOKS = globals().get("HOOKS")
if HOOKS:
    m["hooks"] = HOOKS
with open(f"{HERE}/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
with open(f"{HERE}/checks.map", "w") as f:
    for i in ids:
        if i in CHECKS:
            f.write(f"{i} {CHECKS[i][0]}\n")

# the table of planted bugs
import glob
rows = []
for f in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append(f"| {f.split('/')[1]} | {m['property']} | {m['needs']} |")
d = open("DESIGN.md").read()
d = d[: d.index("<!-- seeds -->")] + "<!-- seeds -->\n| seed | property | needs |\n|---|---|---|\n" + "\n".join(rows) + "\n"
open("DESIGN.md", "w").write(d)
