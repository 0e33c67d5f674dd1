import os,sys,time; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
import specs, verify, z3
from mir import Prog
import os; p=Prog(os.environ.get('DUMP','/verif/.cache/mir.json'))
for n in sys.argv[1:]:
    sp=verify.SPECS[n]; o=sp.post
    sp.post=lambda v,o=o: [(a,z3.Not(g)) for a,g in o(v)]+[("false",z3.BoolVal(False))]
    r=verify.run_spec(p,sp,budget=200,verbose=True); print(n,[(x.name.split("::")[-1],x.res) for x in r.obls])
