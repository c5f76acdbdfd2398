"""writes DESIGN.md from the text below plus the lists kept in verus/, kani/, known-findings.txt and seeded/"""
import os, re, json, sys
V="/verif"; sys.path.insert(0,V+"/lib")
import verus_layer
us=verus_layer.load_units(V)
txt=open(V+"/tools/design.txt").read()
# table: property -> functions under contract
by={}
for u in us.values():
    for it in u["items"]:
        if it["kind"]=="fn" and not it.get("imported"):
            for p in it["props"]: by.setdefault(p,{}).setdefault(u["name"],[]).append(it["name"]+(" (trusted)" if it["trust"] else ""))
rows=[]
kj=V+"/kani/harnesses.json"
kh=json.load(open(kj)) if os.path.exists(kj) else {}
for i in range(1,19):
    p="P%02d"%i
    a="; ".join("`%s`: %s"%(n,", ".join(l)) for n,l in by.get(p,{}).items()) or "none"
    rows.append("**%s** Verus - %s."%(p,a)+((" Kani - "+", ".join(kh[p])+".") if kh.get(p) else ""))
txt=txt.replace("@@FUNCS@@","\n\n".join(rows))
txt=txt.replace("@@FIXES@@","\n".join("- "+l.strip().replace("fixed: property=","") for l in open(V+"/known-findings.txt") if l.startswith("fixed:")))
seeds=[]
res=json.load(open(V+"/tools/seed_results.json")) if os.path.exists(V+"/tools/seed_results.json") else {}
for d in sorted(os.listdir(V+"/seeded")):
    m=json.load(open(V+"/seeded/%s/meta.json"%d))
    seeds.append("| %s | %s | %s; %s | %s |"%(d,m["property"],m["what_it_breaks"],"needs: "+m["needs"],res.get(d,"-")))
txt=txt.replace("@@SEEDS@@","| bug | property | what, and what it needs | caught by |\n|---|---|---|---|\n"+"\n".join(seeds))
notes=json.load(open(V+"/lib/levels.json"))
txt=txt.replace("@@NOTES@@","\n\n".join("**%s** (level %s) %s"%(p,notes[p]["level"],notes[p]["note"]) for p in sorted(notes)))
open(V+"/DESIGN.md","w").write(txt)
