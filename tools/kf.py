#!/usr/bin/env python3
"""kf.py fixed PROP ID COMMIT what | known PROP ID SIGNATURE what   -- maintain known-findings.json by hand"""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known-findings.json")
k = json.load(open(p)) if os.path.exists(p) else []
st, prop, i, x, what = sys.argv[1:6]
k = [e for e in k if e["id"] != i]
if st == "fixed": k.append({"property": prop, "status": "fixed", "id": i, "what": "fixed: property=%s %s %s" % (prop, x, what)})
else: k.append({"property": prop, "status": "known", "id": i, "signature": x, "what": what})
json.dump(k, open(p, "w"), indent=1); open(p, "a").write("\n")
