"""python3 tools/addtech.py ID 'technique' 'level note'"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "techniques.json")
t = json.load(open(p))
t["checks"][sys.argv[1]] = [sys.argv[2], sys.argv[3]]
json.dump(t, open(p, "w"), indent=1)
