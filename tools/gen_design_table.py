#!/usr/bin/env python3
"""Rewrites the planted-bug table at the end of DESIGN.md from seeded/*/meta.json (run by hand; no check uses it)."""
import json, os, re
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISS=json.load(open(os.path.join(R,'tools','first_missed.json')))
rows=[]
for d in sorted(os.listdir(R+'/seeded')):
    m=json.load(open(f'{R}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {MISS.get(d,'caught at once')} |")
p=R+'/DESIGN.md'
t=open(p).read()
h='<!-- table: planted bugs -->'
t=t[:t.index(h)+len(h)]+'\n\n| planted bug | property whose check catches it | needs | history |\n|---|---|---|---|\n'+'\n'.join(rows)+'\n'
open(p,'w').write(t)
print(len(rows))
