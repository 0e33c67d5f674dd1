import sys, json
sys.path.insert(0, '/verif/engine')
from mir import *
def pl(p, prog):
    s = f"_{p['local']}"
    for e in p["projection"]:
        if e == "Deref": s = f"(*{s})"
        elif "Field" in e: s += f".{e['Field'][0]}"
        elif "Downcast" in e: s += f" as v{e['Downcast']}"
        elif "Index" in e: s += f"[_{e['Index']}]"
        else: s += str(e)
    return s
def op(o, prog):
    k, v = next(iter(o.items()))
    if k in ("Copy", "Move"): return ("" if k=="Copy" else "move ")+pl(v, prog)
    if k == "Constant":
        c = v["const_"]; t = prog.types[c["ty"]]
        kk = c["kind"]
        if isinstance(kk, dict) and "Allocated" in kk: return f"const {kk['Allocated']['bytes'][:8]}:{t.name}"
        return f"const {t.name}"
    return str(o)
def rv(r, prog):
    k, v = next(iter(r.items()))
    if k == "Use": return op(v[0], prog)
    if k == "Ref": return f"&{'' if v[1]=='Shared' else 'mut '}{pl(v[2],prog)}"
    if k == "Aggregate": return f"agg {v[0] if isinstance(v[0],str) else list(v[0].items())[0][0]} {[op(o,prog) for o in v[1]]}"
    if k in("BinaryOp","CheckedBinaryOp"): return f"{k} {v[0]} {op(v[1],prog)} {op(v[2],prog)}"
    if k=="Discriminant" or k=="CopyForDeref": return f"{k} {pl(v,prog)}"
    if k=="Cast": return f"cast {v[0]} {op(v[1],prog)} as {prog.types[v[2]].name}"
    return json.dumps(r)[:200]
def show(i):
    b=i.body; prog=i.prog
    print("fn", i.name, "args", b.arg_count)
    for n,l in enumerate(b.locals): print(f"  _{n}: {prog.types[l['ty']].name[:110]}  {b.names.get(n,'')}")
    for n,bb in enumerate(b.blocks):
        print(f" bb{n}:")
        for s in bb["statements"]:
            k=s["kind"]
            if isinstance(k,dict) and "Assign" in k: print("   ",pl(k["Assign"][0],prog),"=",rv(k["Assign"][1],prog))
            elif isinstance(k,dict) and ("StorageLive" in k or "StorageDead" in k): pass
            else: print("   ",json.dumps(k)[:150])
        t=bb["terminator"]["kind"]
        if isinstance(t,dict) and "Call" in t:
            c=t["Call"]; print("    call",pl(c["destination"],prog),"=",op(c["func"],prog),[op(a,prog) for a in c["args"]],"->",c["target"])
        else: print("   ",json.dumps(t)[:200])
if __name__=="__main__":
    p=Prog(sys.argv[1])
    if len(sys.argv)>2:
        for i in p.insts.values():
            if sys.argv[2] in i.name and i.has_body: show(i)
    else:
        print(len(p.insts), sum(i.has_body for i in p.insts.values()), len(p.types))
