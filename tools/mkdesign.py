#!/usr/bin/env python3
"""DESIGN.md from DESIGN.md.in and tools/matrix.txt (written by the run of all checks on all planted bugs)."""
import json, os
R='/verif/'
mx={}
if os.path.exists(R+'tools/matrix.txt'):
    for l in open(R+'tools/matrix.txt'):
        f=l.split()
        if len(f)>=3: mx[f[0]]=f[2]
rows=['| planted bug | property | what it breaks | caught by |','|---|---|---|---|']
for s in sorted(os.listdir(R+'seeded')):
    m=json.load(open(f'{R}seeded/{s}/meta.json'))
    g=mx.get(s,'')
    if g in ('OK','MISSED'): g='none'
    rows.append(f"| {s} | {m['property']} | {m['what_it_breaks'][:120]} | {g.replace(',',', ')} |")
open(R+'DESIGN.md','w').write(open(R+'DESIGN.md.in').read().replace('@@TABLE@@','\n'.join(rows)))
