#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md.  Outcomes: tools/eval.sh (target check, quick tier)."""
import json,glob,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED=set()
rows=[]
for d in sorted(glob.glob(here+'/seeded/*/meta.json')):
    m=json.load(open(d)); b=os.path.basename(os.path.dirname(d))
    f=[l[6:].strip() for l in open(os.path.dirname(d)+'/patch.diff') if l.startswith('+++ b/')]
    rows.append(f"| {b} | {m['property']} | {', '.join(x.replace('src/osu_file/','') for x in f)} | {m['needs']} | {m['what_it_breaks']} | {'missed' if b in MISSED else 'caught'} |")
p=here+'/DESIGN.md'; s=open(p).read()
mark='\n## 6. Planted bugs and what the check of their property said (quick tier, seed 1)\n'
s=s.split(mark)[0].rstrip()+'\n'+mark+'\n| bug | check | file | needs | breaks | outcome |\n|---|---|---|---|---|---|\n'+'\n'.join(rows)+'\n'
open(p,'w').write(s)
