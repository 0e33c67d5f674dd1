"""print MIR of a function: mirp.py KEY"""
import sys
from mir import *
from show import *
p=Prog('/verif/.cache/mir.json')
def pl(p_): return "_%d"%p_["local"]+"".join("."+(str(e) if isinstance(e,str) else str(list(e.values())[0]) ) for e in p_["projection"])
def op(o):
    k,v=next(iter(o.items()))
    if k in("Copy","Move"): return pl(v)
    if k=="Constant":
        ty=p.types[v["const_"]["ty"]]; return "const "+ty.name[:60]
    return str(o)
for i in p.insts.values():
    if i.has_body and canon(i.name)==sys.argv[1]:
        b=i.body; print(i.name)
        for j,l in enumerate(b.locals): print("  let _%d: %s"%(j,p.types[l["ty"]].name[:150]), b.names.get(j,""))
        for j,bl in enumerate(b.blocks):
            print(" bb%d:"%j)
            for st in bl["statements"]:
                k=st["kind"]
                if isinstance(k,dict) and "Assign" in k:
                    print("   ",pl(k["Assign"][0]),"=",str(k["Assign"][1])[:260])
            t=bl["terminator"]["kind"]
            if isinstance(t,dict) and "Call" in t:
                c=t["Call"]; print("   ",pl(c["destination"]),"=",op(c["func"])[:100],[op(a) for a in c["args"]],"->",c["target"])
            else: print("   ",str(t)[:200])
        break
