# Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json.
import json,os,re
d="/verif/seeded"
rows=["| planted bug | property | needs | effect |","|---|---|---|---|"]
for i in sorted(os.listdir(d),key=lambda i:(json.load(open(f"{d}/{i}/meta.json"))["property"],i)):
    m=json.load(open(f"{d}/{i}/meta.json"))
    e=lambda s:s.replace("|","\\|").replace("\n"," ")
    rows.append(f"| {i} | {m['property']} | {e(m['needs'])} | {e(m['what_it_breaks'])} |")
p="/verif/DESIGN.md"
s=open(p).read()
b,e="<!-- seeds -->","<!-- /seeds -->"
t=b+"\n"+"\n".join(rows)+"\n"+e
s=s.replace("SEEDTABLE",b+"\n"+e) if b not in s else s
s=re.sub(re.escape(b)+".*?"+re.escape(e),lambda _:t,s,flags=re.S)
open(p,"w").write(s)
