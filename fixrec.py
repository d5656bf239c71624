#!/usr/bin/env python3
"""fixrec.py PROPERTY COMMIT: record a fix commit in known_findings.json"""
import json, subprocess, sys
p, c = sys.argv[1], sys.argv[2]
m = subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%s", c], text=True).strip().removeprefix("fix: ")
h = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "--short", c], text=True).strip()
k = json.load(open("known_findings.json"))
k.append({"property": p, "status": "fixed", "commit": h, "what": "fixed: property=%s %s %s" % (p, h, m)})
json.dump(k, open("known_findings.json", "w"), indent=1)
