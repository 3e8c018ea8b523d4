#!/usr/bin/env python3
"""rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json (status from dev/status.json, written by plant.py verify)"""
import json,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
st=json.load(open(V+"/dev/status.json")) if os.path.exists(V+"/dev/status.json") else {}
rows=[]
for d in sorted(os.listdir(V+"/seeded")):
    m=json.load(open(f"{V}/seeded/{d}/meta.json"))
    f=sorted(set(re.findall(r"^\+\+\+ b/(\S+)",open(f"{V}/seeded/{d}/patch.diff").read(),re.M)))
    rows.append("| %s | %s | %s | %s | %s |"%(d,", ".join(f),m["what_it_breaks"].replace("|","/"),m["needs"].replace("|","/"),st.get(d,m["property"]+" (exit 1)")))
t="<!-- planted:begin -->\n| change | file | what it breaks | needs | caught by |\n|---|---|---|---|---|\n"+"\n".join(rows)+"\n<!-- planted:end -->"
p=V+"/DESIGN.md"; s=open(p).read()
s=re.sub(r"<!-- planted:begin -->.*<!-- planted:end -->",lambda m:t,s,flags=re.S) if "planted:begin" in s else s+"\n## Planted changes and the checks that catch them\n\n"+t+"\n"
open(p,"w").write(s)
