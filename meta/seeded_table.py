"""writes the table of planted bugs into DESIGN.md (between the SEEDED markers)"""
import json,glob,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=["| bug | property | what it breaks | what it needs |","|---|---|---|---|"]
for d in sorted(glob.glob(V+'/seeded/*/meta.json')):
    m=json.load(open(d)); c=lambda t: t.replace('|','/').replace('\n',' ')
    rows.append("| %s | %s | %s | %s |"%(os.path.basename(os.path.dirname(d)),m['property'],c(m['what_it_breaks']),c(m['needs'])))
t="<!-- SEEDED -->\n"+"\n".join(rows)+"\n<!-- /SEEDED -->"
f=V+'/DESIGN.md'; s=open(f).read()
s=s.replace('@@SEEDED@@',t) if '@@SEEDED@@' in s else re.sub(r'(?s)<!-- SEEDED -->.*<!-- /SEEDED -->',lambda m:t,s)
open(f,'w').write(s)
