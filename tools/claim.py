#!/usr/bin/env python3
"""tools/claim.py ID "note" [level]: adds a claim and rewrites MANIFEST.json"""
import json, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); p = V + "/tools/claims.json"
d = json.load(open(p)); d["claimed"][sys.argv[1]] = dict(note=sys.argv[2], **({"level": sys.argv[3]} if len(sys.argv) > 3 else {})); d["na"].pop(sys.argv[1], None)
json.dump(d, open(p, "w"), indent=1); os.system("python3-vt %s/tools/mkmanifest.py" % V)
