"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=['| bug | property | needs | caught by |','|---|---|---|---|']
for d in sorted(os.listdir(V+'/seeded')):
    m=json.load(open(f'{V}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {m.get('caught_by', m['property'])} |")
p=V+'/DESIGN.md'; s=open(p).read(); i=s.index('<!-- seeds -->')
open(p,'w').write(s[:i]+'<!-- seeds -->\n'+'\n'.join(rows)+'\n')
