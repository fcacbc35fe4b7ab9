#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the properties check.py decides."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root)
import check
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in check.PROPS:
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=("TLA+ specification checked with TLC; traces of the real code validated against it by TLC"),
                           level="model_checking", level_note=("Design models exhaustive within small constants; the code is bound by validating traces of TLC-enumerated cases, so it holds for the behaviours enumerated, not for all inputs. Trusts the harness's own parser, CRC and codecs.")))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="python3 check.py setup", checks=checks, not_applicable=na,
               notes="No hooks: everything is observed through the public API, so nothing in /repo is guarded. Known and fixed findings: KNOWN_FINDINGS.jsonl."),
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
