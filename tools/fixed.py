#!/usr/bin/env python3
"""fixed.py ID COMMIT text: add a fixed entry to known_findings.json"""
import json, os, sys
f = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json")
s = json.load(open(f))
s["fixed"].append(f"fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}")
json.dump(s, open(f, "w"), indent=1)
