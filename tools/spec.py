#!/usr/bin/env python3
"""The properties, in one place.  Writes properties.jsonl, MANIFEST.json and tools/kinds.

DONE lists the properties that have a check; the others go under not_applicable until they have."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, kind, title, statement, over, text, why, files, mechanism, technique, note, observe=None):
    P.append(dict(id=id, kind=kind, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mechanism=mechanism, technique=technique, note=note, observe=observe or []))


INPUTS = ["inputs"]
HIST = ["histories", "inputs"]

exec(open(os.path.join(VERIF, "tools", "properties.py")).read())

TRUST = (" Trusted: the reference model in the harness, the explorer in harness/common, and, where "
         "automata are involved, the stand-in for the unavailable crate `integeriser`.")


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"],
                "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": p["files"],
                    "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                    "observe_at": p["observe"],
                    "hook_needed": None,
                },
            }, ensure_ascii=False) + "\n")
    checks, rest = [], []
    for p in P:
        if p["id"] in DONE:
            checks.append({
                "property": p["id"],
                "quick_cmd": f"bash check.sh {p['id']} quick",
                "thorough_cmd": f"bash check.sh {p['id']} thorough",
                "evidence_file": f"evidence/{p['id']}.json",
                "technique": p["technique"],
                "level": "model_checking",
                "level_note": p["note"] + TRUST,
            })
        else:
            rest.append({"property": p["id"], "reason": NOT_CLAIMED.get(p["id"], "the check is not built yet")})
    manifest = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "hooks": HOOKS,
        "checks": checks,
        "not_applicable": rest,
        "notes": "All checks explore bounded spaces exhaustively on the real code; see DESIGN.md.",
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1, ensure_ascii=False)
        f.write("\n")
    with open(os.path.join(VERIF, "tools", "kinds"), "w") as f:
        for p in P:
            f.write(f"{p['id']} {p['kind']}\n")


main()
