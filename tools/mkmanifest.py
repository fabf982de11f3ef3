#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "gen"))
sys.dont_write_bytecode = True
import checks
with open(os.path.join(HERE, "properties.jsonl")) as f:
    props = [json.loads(l)["id"] for l in f]
NA = {}
TECH = getattr(checks, "TECHNIQUE", {})
DEFAULT = "bounded-exhaustive state enumeration of the real generated code against a bit-level reference model"
out = dict(version=1, setup_cmd="python3 check.py --setup", checks=[], not_applicable=[dict(property=p, reason=NA.get(p, "check under construction")) for p in props if p not in checks.CHECKS],
           notes="Every check is `python3 check.py <id>`; VERIF_TIER selects the bounds. See DESIGN.md.")
for p in props:
    if p in checks.CHECKS:
        fn, bounds = checks.CHECKS[p]
        out["checks"].append(dict(property=p, quick_cmd="python3 check.py " + p, thorough_cmd="VERIF_TIER=thorough python3 check.py " + p,
                                  technique=TECH.get(p, DEFAULT), level="model_checking",
                                  level_note="Complete within these bounds, no claim beyond them: %s. Trusts rustc and the reference model in /verif." % bounds))
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
