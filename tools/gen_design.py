#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, the notes below, claims.py and seeded/."""
import json, os, glob, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(HERE)
T = {c["property"]: (c["technique"], c["level_note"].split("harness's model. ")[-1]) for c in json.load(open("MANIFEST.json"))["checks"]}
D = {}
exec(open("tools/design_notes.py").read())
props = [json.loads(l) for l in open("properties.jsonl")]
found = json.load(open("known_findings.json"))
seeds = {}
for f in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(f))
    seeds.setdefault(m["property"], []).append((f.split("/")[1], m))
src = open("check.py").read()
runs = eval(re.search(r"(?s)RUNS = (\{.*?\n\})", src).group(1))
out = [open("tools/design_head.md").read().rstrip(), "", "## Properties", ""]
for p in props:
    i = p["id"]
    d = D[i]
    out += ["### %s %s" % (i, p["title"]), ""]
    out += ["*Monitor:* " + T[i][0] + ". " + T[i][1], ""]
    out += ["*Workload and bounds:* " + d[0], ""]
    out += ["*Why beyond tests:* " + p["why_tests_cant"], ""]
    if len(d) > 1 and d[1]:
        out += ["*Left out:* " + d[1], ""]
    out += ["*Runs:* " + ", ".join("`harness/%s` `Test%s`%s" % (k, i, " with the race detector" if r else "") for k, r in runs[i])]
    if i in seeds:
        out += ["", "*Planted bugs caught by this check:* " + ", ".join("`%s`" % s for s, _ in seeds[i])]
    out.append("")
out += [open("tools/design_tail.md").read().rstrip(), "", "## Repairs committed in /repo", ""]
out += ["* " + f.replace("fixed: property=", "") for f in found["fixed"]]
out += ["", "Known findings that are recorded but not repaired: %d." % len(found["findings"]), ""]
out += ["## Planted bugs", "", "| id | property | needs | breaks |", "|---|---|---|---|"]
for i in sorted(seeds):
    for s, m in seeds[i]:
        out.append("| %s | %s | %s | %s |" % (s, i, m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/")))
out += ["", "Every one is caught by the quick check of its own property (validated with `tools/seed.py check all`)."]
open("DESIGN.md", "w").write("\n".join(out) + "\n")
