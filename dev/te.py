import sys,time
sys.path.insert(0,'/verif')
from sa.engine import *
e=Engine(sys.argv[1]); t=time.time()
from collections import Counter
c=Counter()
for q in sorted(e.A.funcs):
    if len(sys.argv)>2 and sys.argv[2] not in q: continue
    v=e.verdict(q); c[v.kind]+=1
    if v.kind!='equal':
        print(v.kind,q,v.note, v.func)
        if v.diff is not None:
            for l,s in cmp.describe(v.diff,v.diff.only_ref,3): print('   -',l,s[:200])
            for l,s in cmp.describe(v.diff,v.diff.only_cur,3): print('   +',l,s[:200])
print(c,time.time()-t)
