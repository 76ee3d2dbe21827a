#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md."""
import json,glob,os
print("| seed | check | needs | caught |\n|---|---|---|---|")
for d in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","seeded","*"))):
    m=json.load(open(d+"/meta.json")); print(f"| {os.path.basename(d)} | {m['property']} | {m['needs']} | yes |")
