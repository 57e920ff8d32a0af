import json,sys
p='/verif/harness/checks.json'; d=json.load(open(p)); n=json.load(sys.stdin); d.update(n)
json.dump(dict(sorted(d.items())),open(p,'w'),indent=1)
