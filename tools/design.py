#!/usr/bin/env python3-vt
"""Writes DESIGN.md."""
import importlib
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(VERIF, "pbt"), os.path.join(VERIF, "tools")]
sys.dont_write_bytecode = True
import catalog  # noqa: E402

sys.modules["catalog"] = catalog
catalog.load()
out = [open(os.path.join(VERIF, "tools", "design_preface.md")).read()]
out.append("## The properties\n")
for entry, technique, note in catalog.CATALOG:
    prop = importlib.import_module("props." + entry["id"].lower())
    out.append("### %s %s\n" % (entry["id"], entry["title"]))
    out.append("%s\n" % entry["statement"])
    out.append("*Holds over:* %s.\n" % entry["quantifier"]["text"].rstrip("."))
    out.append("*Generated, and what counts as non-trivial:* %s\n" %
               " ".join(prop.RULE.split()))
    out.append("*Deciding method:* %s. %s\n" % (technique, note))
    if getattr(prop, "ASSUMPTIONS", None):
        out.append("*Assumed:* %s\n" % " ".join(prop.ASSUMPTIONS))
    out.append("*Cases:* %s.\n" % "; ".join(
        "part %s: %d quick, %d thorough" % (
            p.name, p.cases["quick"], p.cases["thorough"])
        for p in prop.PARTS))
    out.append("*Beyond the tests:* %s.\n" %
               entry["why_tests_cant"].rstrip("."))
out.append("""## Planted bugs

Each is a patch in `seeded/`, written from a property and the code, that
passes the tests. The last column is what the property's own check says of
it; where a check missed one at first it was strengthened until it did not,
as noted.

| bug | property | needs | breaks | check |
|---|---|---|---|---|""")
caught = json.load(open(os.path.join(VERIF, "tools", "caught.json")))
for name in sorted(os.listdir(os.path.join(VERIF, "seeded"))):
    meta = json.load(open(os.path.join(VERIF, "seeded", name, "meta.json")))
    out.append("| %s | %s | %s | %s | %s |" % (
        name, meta["property"], meta["needs"], meta["what_it_breaks"],
        caught.get(name, "not run")))
with open(os.path.join(VERIF, "DESIGN.md"), "w") as f:
    f.write("\n".join(out) + "\n")
