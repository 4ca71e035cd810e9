#!/usr/bin/env python3
"""Shows the case of a replay file, without the noise."""
import json,sys
d=json.load(open(sys.argv[1])); print(d['message'][:1500]); c=d['case']
for k,v in c.items():
    if k=='setup': v=[x for x in v if not(x[0]=='val' and x[2]==0) and not (x[0] in('sset','oset') and x[2] in('a',None)) and not (x[0]=='lset' and x[2]==[])]
    print(k,':',json.dumps(v,ensure_ascii=False)[:int(sys.argv[2]) if len(sys.argv)>2 else 2500])
