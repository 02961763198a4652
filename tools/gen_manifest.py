#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

BASE = ("Exploration: the property held on every execution the workload produced (counts in the evidence file). "
        "Trusts the Go toolchain and standard library, database/sql, and the harness's model. ")

# property -> (technique, note). Only properties listed here are claimed.
T = {
 "C08": ("runtime monitoring: scripted and real clocks, many goroutines, race detector, online uniqueness/order checker",
         "Sequential histories run in virtual time; concurrent histories are checked for real-time order, uniqueness and sign."),
 "C09": ("runtime monitoring: scripted clock compared with decomposed IDs and reported times, race detector on LastID/FirstID",
         "Clock readings are known exactly to the monitor because it is the time source."),
}
exec(open(os.path.join(HERE, "tools", "claims.py")).read(), {"T": T})

PENDING = "no check of its own yet; being built"

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {
 "version": 1,
 "setup_cmd": "bash tools/setup.sh",
 "hooks": {"guard": "verif", "enable": "no hooks are needed: every check observes public behaviour, drivers, sockets and processes; -tags verif would select hooks if any existed", "source_commits": []},
 "checks": [], "not_applicable": [],
 "notes": "One driver (check.py) builds the harness package of a property against /repo's working tree, runs it under its monitors and writes the evidence file.",
}
for p in props:
    i = p["id"]
    if i in T:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": T[i][0], "level": "exploration", "level_note": BASE + T[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": PENDING})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print("claimed", len(m["checks"]), "pending", len(m["not_applicable"]))
