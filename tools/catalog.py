#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from this one list."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "txstatsd/server/processor.py"
CP = "txstatsd/server/configurableprocessor.py"
RT = "txstatsd/server/router.py"
SV = "txstatsd/service.py"

CATALOG = []


def prop(id, title, statement, over, quantifier, why, files, mechanism,
         observe, technique, note, state=()):
    statement = " ".join(statement.split())
    assert len(title) <= 80, title
    entry = {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": " ".join(quantifier.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "observe_at": observe, "hook_needed": None},
    }
    if state:
        entry["anchors"]["state"] = [
            {"name": n, "meaning": m, "where": w} for n, m, w in state]
    CATALOG.append((entry, technique, " ".join(note.split())))


def load():
    import catalog_entries
    catalog_entries.define(prop)


def main():
    load()
    claimed = [c for c in CATALOG if os.path.exists(os.path.join(
        VERIF, "pbt", "props", c[0]["id"].lower() + ".py"))]
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for entry, _, _ in claimed:
            f.write(json.dumps(entry) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": [{
            "property": entry["id"],
            "quick_cmd": "./check %s --tier quick" % entry["id"],
            "thorough_cmd": "./check %s --tier thorough" % entry["id"],
            "technique": technique,
            "level": "exploration",
            "level_note": note,
        } for entry, technique, note in claimed],
        "not_applicable": [],
        "notes": "txstatsd runs under Jython 2.7; Hypothesis (Python 3.12) "
                 "generates and shrinks cases, a Jython process runs them on "
                 "the code in /repo. No hooks in /repo are needed. See "
                 "DESIGN.md.",
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")
    missing = [c[0]["id"] for c in CATALOG if c not in claimed]
    print("%d claimed; described but without a check: %s" % (
        len(claimed), missing))


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    sys.modules["catalog"] = sys.modules["__main__"]
    main()
