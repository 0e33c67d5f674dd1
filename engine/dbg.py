import sys; sys.argv=[sys.argv[0]]+sys.argv[1:]
from verify import *
import specs
from mir import Prog
def go(name, dump='/verif/.cache/mir.json'):
    p=Prog(dump)
    r=run_spec(p,SPECS[name])
    for o in r.obls:
        if o.res!='proved':
            print('==',o.name,o.res)
            for h in o.hyps: print('   H',str(h)[:int(__import__("os").environ.get("W","300"))].replace('\n',' '))
            print('   G',str(z3.simplify(o.goal))[:1200].replace('\n',' '))
            if len(sys.argv)>2 and o.model is not None: print(str(o.model)[:3000])
            break
go(sys.argv[1])
