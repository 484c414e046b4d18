import sys
sys.path.insert(0,'/verif')
from sa.engine import *
from sa import mt
e=Engine(sys.argv[1]); q=sys.argv[2]
v=e.verdict(q)
a=e.graph('A',q,v.inlined if v.kind=='equal' else frozenset()); b=e.graph('B',q,frozenset())
ga,gb=cmp.Graph(a),cmp.Graph(b)
ca,cb=cmp.Colour(ga),cmp.Colour(gb)
def dump(g,c):
    out=[]
    for (ef,cond,ts,tgt) in g.items:
        out.append((ef.line,ef.kind,ef.callee,[c.tcol(t)%99991 for t in ts],'loop',c.lcol(ef.loop)%99991,'cond',c.col(cond)%99991, 'own', tgt.kind if tgt is not None else None))
    for n,u in sorted(g.uniqs.items()):
        out.append((u.kind, getattr(u,'name',''), getattr(u,'label',''), c.ucol(u)%99991, 'ga',c.col(u.ga)%99991 if hasattr(u,'ga') else '', 'gexit',c.col(u.gexit)%99991 if u.kind=='loop' else ''))
    return out
import difflib
A=[str(x) for x in dump(ga,ca)];B=[str(x) for x in dump(gb,cb)]
print('\n'.join(A)); print('-----'); print('\n'.join(B))
