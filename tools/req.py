#!/usr/bin/env python3
"""req.py CNN EVIDENCE: Require counters against observed ones."""
import re,json,sys,glob
idd,ev=sys.argv[1],sys.argv[2]
obs=json.load(open(ev))['coverage']['observed']
s=''.join(open(f).read() for f in glob.glob(f'/verif/harness/cmd/{idd.lower()}/*.go'))
m=re.search(r'Require:\s*map\[string\]int64\{(.*?)\},\n',s,re.S)
for k,v in re.findall(r'"([\w.:+/-]+)": (\d+)',m.group(1)):
    o=obs.get(k,0); print(('LOW ' if o<int(v)*1.3 else '    ')+k,v,o)
