"""which candidate invariants die, and why: dbgc.py SPEC"""
import sys, loops, verify, exec as X
import specs
from verify import *
from mir import Prog
orig=X.Ctx.prove
def prove(self,hyps,goal,timeout=10000,want=False):
    r=orig(self,hyps,goal,timeout,want)
    if timeout==3000 and r[0]!="proved":
        print("DEAD", r[0], str(z3.simplify(goal))[:900].replace("\n"," "))
        if len(sys.argv)>2:
            for h in hyps: print("    H", str(h)[:400].replace("\n"," "))
    return r
X.Ctx.prove=prove
p=Prog('/verif/.cache/mir.json'); r=run_spec(p,SPECS[sys.argv[1]],verbose=True); print(r.status,r.reason)
