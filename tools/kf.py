#!/usr/bin/env python3
"""kf.py PROP ENTRY COMMIT TEXT: record a fixed defect"""
import sys, json
p, e, c, t = sys.argv[1:5]; f = "/verif/known_findings.json"; d = json.load(open(f)); d.append({"property": p, "entry": e, "status": "fixed", "commit": c, "line": f"fixed: property={p} {c} {t}"}); json.dump(d, open(f, "w"), indent=1)
