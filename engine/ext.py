import sys; sys.path.insert(0,'/verif/engine')
from mir import *
from collections import Counter
p=Prog(sys.argv[1])
c={}
for i in p.insts.values():
    if not i.has_body: c.setdefault((canon(i.name)),[]).append(i)
for k in sorted(c): print(k, len(c[k]), c[k][0].kind if c[k][0].kind!="Item" else "")
