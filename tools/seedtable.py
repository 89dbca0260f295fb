#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md between its markers."""
import json,os,re
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=["<!-- seeds -->","| id | what it needs to show |","|---|---|"]
for d in sorted(os.listdir(root+"/seeded")):
    m=json.load(open(f"{root}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['needs'].replace('|','/').strip()} |")
rows.append("<!-- /seeds -->")
p=root+"/DESIGN.md"; s=open(p).read()
t="\n".join(rows)
if "SEEDTABLE" in s: s=s.replace("SEEDTABLE",t)
else: s=re.sub(r"<!-- seeds -->.*<!-- /seeds -->",lambda _:t,s,flags=re.S)
open(p,"w").write(s)
