#!/usr/bin/env python3
"""writes MANIFEST.json from specs.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import specs
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = dict(version=1, setup_cmd="python3 check.py setup",
         hooks=dict(guard="SONIVOX_VERIF_HOOKS", enable="check.py builds the hook* variants with -DSONIVOX_VERIF_HOOKS; all other variants build /repo without it",
                    source_commits=["580dfbd"]), checks=[], not_applicable=[])
import subprocess
m["hooks"]["source_commits"] = [subprocess.check_output(["git", "-C", "/repo", "log", "--format=%H", "--grep", "^hooks:"], text=True).split()[-1]]
for p in props:
    i = p["id"]
    if i in specs.SPECS:
        s = specs.SPECS[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3 check.py %s thorough" % i,
                                evidence_file="evidence/%s.json" % i, technique=s.get("technique", "sanitizer-instrumented randomized execution with an online oracle"),
                                level=s["level"], level_note=s.get("note", s["rule"])))
    else:
        m["not_applicable"].append(dict(property=i, reason=specs.UNCLAIMED.get(i, "the check for this property is not built yet")))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "unclaimed")
