#!/usr/bin/env python3
"""regenerates MANIFEST.json from props.json (run by hand after editing props.json)"""
import json
P = json.load(open("/verif/props.json"))
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
checks = []
for p in props:
    k = p["id"]
    if k not in P:
        continue
    c = P[k]
    checks.append(dict(property=k, quick_cmd="python3 /verif/check.py %s" % k, thorough_cmd="python3 /verif/check.py %s --thorough" % k,
                       evidence_file="evidence/%s.json" % k, technique=c.get("technique", "deductive verification of extracted real functions (Verus contracts, all obligations each run) + contract replay on the compiled crate"),
                       level=c["level"], level_note=c["level_note"]))
na = [dict(property=k, reason=v) for k, v in P.get("_not_applicable", {}).items()]
m = dict(version=1, setup_cmd="python3 /verif/check.py --setup", checks=checks, not_applicable=na,
         notes="no hooks: the extractor reads private functions from source; the replay harness uses the public API only")
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
