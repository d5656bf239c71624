#!/usr/bin/env python3
"""reg.py ID module[,module] [native.cxx 'bounds' 'covers']...: enter a property into registry.json"""
import json, sys
r = json.load(open("registry.json"))
a = sys.argv[1:]
e = r.get(a[0], {})
e["modules"] = a[1].split(",")
nat = []
for i in range(2, len(a), 3):
    nat.append({"src": a[i], "role": "replay of failed obligations on the real code; bounded, not counted as proof", "bounds": a[i + 1], "covers": a[i + 2]})
e["native"] = nat
r[a[0]] = e
json.dump(r, open("registry.json", "w"), indent=1)
