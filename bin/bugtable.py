#!/usr/bin/env python3
# development aid: rewrites the table of planted bugs in DESIGN.md
import json,glob,os,re
rows=[]
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d=json.load(open(f)); rows.append((os.path.basename(os.path.dirname(f)),d['property'],d['needs'],d['what_it_breaks'],d.get('caught_by','check '+d['property']+', quick')))
t="| bug | property | needs | effect | caught by |\n|---|---|---|---|---|\n"+"\n".join("| "+" | ".join(x.replace('|','/') for x in r)+" |" for r in rows)
p='/verif/DESIGN.md'; s=open(p).read()
s=re.sub(r"(<!-- bugs -->\n).*?(<!-- /bugs -->)",lambda m:m[1]+t+"\n"+m[2],s,flags=re.S)
open(p,'w').write(s)
