#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the notes below."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "harness"))
sys.dont_write_bytecode = True
import plans
ps = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in ps:
    i = p["id"]
    tech, note = plans.NOTES[i]
    checks.append(dict(property=i, quick_cmd="./check %s quick" % i, thorough_cmd="./check %s thorough" % i, technique=tech, level="model_checking",
                       level_note=note))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=[],
         notes="TLA+ specification in spec/, checked with TLC; conformance by TLC on traces recorded from the code in /repo. No hooks in /repo.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
