#!/usr/bin/env python3
"""prints the native input file for a recorded counterexample: mkin.py evidence/replay/X.json"""
import sys,json
d=json.load(open(sys.argv[1]))
for k,v in d.get("params",{}).items(): print("@%s %d"%(k,v))
for k,v in d["inputs"]: print(k,v)
