#!/usr/bin/env python3
"""seeds.py: writes the table of planted bugs into DESIGN.md, between its two markers."""
import json,os,glob
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=[]
for f in sorted(glob.glob(V+'/seeded/*/meta.json')):
    m=json.load(open(f)); i=f.split('/')[-2]
    rows.append(f"| {i} | {m['property']} | {m['needs'].strip()} |")
a,b='<!-- planted -->','<!-- /planted -->'
s=open(V+'/DESIGN.md').read()
t=a+'\n| planted bug | caught by the quick check of | what it needs to show |\n|---|---|---|\n'+'\n'.join(rows)+'\n'+b
if a in s: s=s[:s.index(a)]+t+s[s.index(b)+len(b):]
else: s=s.rstrip('\n')+'\n\n'+t+'\n'
open(V+'/DESIGN.md','w').write(s)
