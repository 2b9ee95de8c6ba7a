#!/usr/bin/env python3
"""Rewrites units/*.shape.json from the tree as it is (run by hand when a unit changes, never by a check)."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
check.build_extractor()
for f in sorted(os.listdir(check.V + "/units")):
    if f.endswith(".rs"):
        u = f[:-3]
        rc, so, se = check.sh([check.EXTRACT, check.SRC, check.V + "/units/" + f, "/tmp/shape.rs", "/tmp/shape.json"])
        assert rc == 0, se
        json.dump(check.shape_of(json.load(open("/tmp/shape.json"))), open(check.V + "/units/" + u + ".shape.json", "w"), indent=1, sort_keys=True)
