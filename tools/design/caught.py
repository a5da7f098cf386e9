"""Collect verdicts from mkseed logs: python3 caught.py LOG..."""
import json,re,sys,os
p=os.path.join(os.path.dirname(os.path.abspath(__file__)),'caught.json')
c=json.load(open(p)) if os.path.exists(p) else {}
for f in sys.argv[1:]:
    for l in open(f):
        m=re.match(r'OK\s+(caught|MISSED) (\S+) (C\d+)',l)
        if m: c[m.group(2)]='yes (%s)'%m.group(3) if m.group(1)=='caught' else 'no'
json.dump(c,open(p,'w'),indent=0,sort_keys=True)
