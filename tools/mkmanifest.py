#!/usr/bin/env python3
"""Regenerates MANIFEST.json from props.py (claimed checks) and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 run.py --selftest", checks=[], not_applicable=[],
  notes="Every check copies /repo's sources to a scratch directory, builds them there with its own config.h, explores and removes the copy. No hooks in /repo are needed: build-time constants (node and table sizes) are changed in the copy, the shared-memory, futex and malloc calls are intercepted at link time, and the shared accesses of the lock code are observed through the compiler's thread-sanitizer callbacks, which the harness implements. Replay: python3 run.py --replay replays/FILE.json")
for i in ids:
    if i in props.PROPS:
        t, level, note = props.META[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 run.py %s quick" % i, thorough_cmd="python3 run.py %s thorough" % i, technique=t, level=level, level_note=note))
    else: m["not_applicable"].append(dict(property=i, reason=props.NA.get(i, "no check built yet")))
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
