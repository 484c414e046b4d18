import sys
sys.path.insert(0,'/verif')
from sa.engine import *
from sa import mt
e=Engine(sys.argv[1]); v=e.verdict(sys.argv[2])
print(v.kind,v.note)
import sa.mt
def sh(m): return mt.show(m)
if v.diff:
    for nm,l in (('-',v.diff.only_ref),('+',v.diff.only_cur)):
        for g in l[:int(sys.argv[3]) if len(sys.argv)>3 else 4]:
            ef,c,ts=g[0][:3] if v.diff.mode=='effects' else (None,None,None)
            if ef is None: print(cmp.describe(v.diff,[g],1,2000)); continue
            print(nm,ef.line,len(g),cmp.describe_one(ef,mt.TRUE,ts)[:400])
            for x in g: print('     WHEN',mt.show(x[1],-6))
