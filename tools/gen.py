#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))

P = []
def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na, observe=observe or []))

AI = "abstract interpretation (relational numeric domain, byte-sequence domain, per-path partitioning, loop fixpoints)"
SOUND = ("Decided on the SSA form of /repo/src on every run. Trusted: the analyzer, go/ssa and its models of the standard library. ")

exec(open("tools/props.py").read())

with open("properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None},
        }) + "\n")
man = {"version": 1, "setup_cmd": "bash setup.sh",
       "hooks": {"guard": "none", "enable": "the checks read the source as it is; no hooks were added to /repo", "source_commits": []},
       "checks": [], "not_applicable": [],
       "notes": "Static analysis only: every check runs the analyzer in /verif/analyzer on the current source of /repo. See DESIGN.md."}
for p in P:
    if p["na"]:
        man["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        man["checks"].append({"property": p["id"], "quick_cmd": "bash run.sh " + p["id"], "thorough_cmd": "env VERIF_TIER=thorough bash run.sh " + p["id"],
            "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "other", "level_note": p["note"]})
json.dump(man, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
print(len(man["checks"]), "claimed", len(man["not_applicable"]), "not applicable")
