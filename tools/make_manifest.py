#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the check modules present in harness/."""
import json, os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, "harness"))
sys.dont_write_bytecode = True
import core

NA = {}
checks, na = [], []
for line in open(os.path.join(VERIF, "properties.jsonl")):
    p = json.loads(line)
    cid = p["id"]
    if os.path.exists(os.path.join(VERIF, "harness", cid.lower() + ".py")):
        mod = core.load(cid)
        checks.append(dict(
            property=cid,
            quick_cmd="python3-vt harness/run.py %s --tier quick" % cid,
            thorough_cmd="python3-vt harness/run.py %s --tier thorough" % cid,
            evidence_file="evidence/%s.json" % cid,
            technique=getattr(mod, "TECHNIQUE", "property-based testing: differential against the standard library streams, structured generation and shrinking"),
            level=mod.LEVEL,
            level_note=getattr(mod, "LEVEL_NOTE", "Explored cases only (no proof of absence). " + " ".join(getattr(mod, "ASSUMPTIONS", []))),
        ))
    else:
        na.append(dict(property=cid, reason=NA.get(cid, "check under construction, not claimed yet")))
manifest = dict(
    version=1,
    setup_cmd="python3-vt tools/setup.py",
    hooks=dict(guard="VERIF_HOOKS", enable="no hook was needed: the checks observe public API, files, /proc and replaced os/fcntl functions", source_commits=[]),
    checks=checks,
    not_applicable=na,
    notes="All checks import the code from /repo/src directly (no build product), see DESIGN.md.",
)
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
print(len(checks), "checks;", len(na), "not claimed")
