#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from the text below, the properties, the cases' bounds and the seeded changes."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS
P = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
FIND = json.load(open(HERE + "/known_findings.json"))["findings"]
NA = {x["property"]: x["reason"] for x in json.load(open(HERE + "/MANIFEST.json")).get("not_applicable", [])} if os.path.exists(HERE + "/MANIFEST.json") else {}
head = open(HERE + "/tools/design_head.md").read()
tail = open(HERE + "/tools/design_tail.md").read()
how = {}
for l in open(HERE + "/tools/design_how.md"):
    if l.startswith("C"):
        k, v = l.split(" ", 1)
        how[k] = v.strip()
with open(HERE + "/DESIGN.md", "w") as f:
    f.write(head)
    f.write("\n## The properties, one by one\n\nEach entry: what the harness does and the oracle; the bounds; what is left outside. "
            "The cases with their parameters are in `checks.py`; every run writes those it explored, with the functions encoded, queries and solver time, to `evidence/<id>.json`.\n")
    for p in P:
        i = p["id"]
        f.write("\n### %s %s\n\n%s\n" % (i, p["title"], how.get(i, "")))
        if i in CHECKS:
            c = CHECKS[i]
            f.write("\n*Bounds:* %s.\n\n*Outside:* %s.\n" % (c["bounds"].rstrip("."), c["outside"].rstrip(".")))
        elif i in NA:
            f.write("\n*Not applicable:* %s\n" % NA[i])
    f.write("\n## Genuine defects found\n\nAll were repaired by a `fix:` commit in /repo (one each); none is left as a known finding, so no check prints KNOWN-FINDING. "
            "They are listed in `known_findings.json` too.\n\n")
    for x in FIND:
        f.write("- %s `%s` %s\n" % (x["property"], x["commit"], x["what"]))
    f.write("\n## Seeded changes\n\nEach is built, passes the stable tests, and its demonstration passes without it and fails with it; each is caught by the check of its own property "
            "(`tools/try_checks.sh`), with the counterexample replayed.\n\n| change | property | what it breaks | what it needs |\n|---|---|---|---|\n")
    for s in sorted(os.listdir(HERE + "/seeded")):
        m = json.load(open(HERE + "/seeded/%s/meta.json" % s))
        f.write("| %s | %s | %s | %s |\n" % (s, m["property"], m["what_it_breaks"].replace("|", "/").replace("\n", " "), str(m["needs"]).replace("|", "/").replace("\n", " ")))
    f.write("\n" + tail)
