#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (caught_by: optional key, default the property's quick check)."""
import json,glob,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=[]
for f in sorted(glob.glob(V+'/seeded/*/meta.json')):
    m=json.load(open(f)); b=f.split('/')[-2]
    rows.append(f"| {b} | {m['property']} | {m['what_it_breaks']} | {m.get('caught_by', m['property']+' quick')} |")
p=V+'/DESIGN.md'
s=open(p).read()
i=s.index('| bug | property |'); j=i
L=s[i:].split('\n'); k=0
while k<len(L) and L[k].startswith('|'): k+=1
s=s[:i]+'\n'.join(['| bug | property | what it breaks | caught by |','|---|---|---|---|']+rows)+'\n'+'\n'.join(L[k:])
open(p,'w').write(s)
