#!/usr/bin/env python3
"""fixed.py PROPERTY COMMIT WHAT...: record a repaired defect."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "KNOWN_FINDINGS.json")
d = json.load(open(p))
d["fixed"].append("fixed: property=%s %s %s" % (sys.argv[1], sys.argv[2], " ".join(sys.argv[3:])))
json.dump(d, open(p, "w"), indent=1)
