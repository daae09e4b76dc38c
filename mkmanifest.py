#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules present and known_findings.json's fixed list."""
import json, os, subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
NA = {
    "C23": "Conversion of typed configuration values is a pure function of the text of one description: "
           "there is no schedule, clock, I/O, crash or second party for a simulator to decide; it is "
           "plain input enumeration, which is a different technique.",
    "C24": "Padding and stacking of tensors is a pure function of its arguments: no concurrency, time, "
           "I/O or multi-party behaviour for a simulator to decide.",
}
NOTE = json.load(open(os.path.join(HERE, "notes.json")))
checks = []
for i in range(1, 25):
    p = f"C{i:02d}"
    if os.path.exists(os.path.join(HERE, "sim", "checks", p.lower() + ".py")):
        checks.append(dict(
            property=p,
            quick_cmd=f"./run.py {p} --tier quick",
            thorough_cmd=f"./run.py {p} --tier thorough",
            evidence_file=f"evidence/{p}.json",
            technique="deterministic simulation with fault injection: " + NOTE[p][0],
            level="exploration",
            level_note=NOTE[p][1],
        ))
pend = [dict(property=p, reason=r) for p, r in NA.items()]
have = {c["property"] for c in checks}
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p not in have and p not in NA:
        pend.append(dict(property=p, reason="no check built yet"))
m = dict(
    version=1,
    setup_cmd="/opt/venv/bin/python -c 'import torch, webdataset' && mkdir -p out evidence",
    checks=checks,
    not_applicable=pend,
)
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")

FIX = json.load(open(os.path.join(HERE, "fixes.json")))  # subject of the commit -> [[property, what failed], ...]
log = dict(
    reversed(l.split(" ", 1))
    for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()
)
kf = json.load(open(os.path.join(HERE, "known_findings.json")))
kf["fixed"] = [
    f"fixed: property={p} {log['fix: ' + subj]} {what}" for subj, l in FIX.items() for p, what in l
]
missing = [k for k in log if k.startswith("fix: ") and k[5:] not in FIX]
assert not missing, missing
json.dump(kf, open(os.path.join(HERE, "known_findings.json"), "w"), indent=1)
open(os.path.join(HERE, "known_findings.json"), "a").write("\n")
