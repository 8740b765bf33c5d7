import json, sys
p = '/verif/vf/groups.json'
g = json.load(open(p))
g.setdefault(sys.argv[1], dict(rule="x"))["groups"] = sys.argv[2:]
json.dump(g, open(p, 'w'), indent=1)
