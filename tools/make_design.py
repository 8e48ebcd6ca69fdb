#!/usr/bin/env python3
"""Generates DESIGN.md from docs/DESIGN.in.md, known_findings.json and seeded/*/meta.json."""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    text = open(os.path.join(ROOT, "docs", "DESIGN.in.md")).read()
    fixed = json.load(open(os.path.join(ROOT, "known_findings.json")))["fixed"]
    lines = []
    for number, entry in enumerate(fixed, 1):
        prop, commit, what = entry.split("property=", 1)[1].split(" ", 2)
        lines.append("* F%d (%s, %s): %s" % (number, prop, commit, what))
    text = text.replace("@@FIXED@@", "\n".join(lines))
    rows = ["| planted bug | caught by | needs |", "|----|----|----|"]
    for path in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
        meta = json.load(open(path))
        rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(path)), meta["property"], meta["needs"]))
    text = text.replace("@@SEEDS@@", "\n".join(rows)).replace("@@NSEEDS@@", str(len(rows) - 2)).replace("@@NFIXED@@", str(len(fixed)))
    mutants = os.path.join(ROOT, "docs", "mutants.md")
    text = text.replace("@@MUTANTS@@", open(mutants).read().rstrip() if os.path.exists(mutants) else "(in progress)")
    with open(os.path.join(ROOT, "DESIGN.md"), "w") as out:
        out.write(text)


if __name__ == "__main__":
    main()
