"""Development aid: deep.py ROOT QUAL — every graph item (closures included) whose colour differs, by round."""
import sys
sys.path.insert(0, '/verif')
from sa.engine import *
from sa import mt
root, q = sys.argv[1:3]
inl = frozenset(sys.argv[3:])
e = Engine(root)
ga, gb = e.graph('A', q, inl), e.graph('B', q, inl)
if isinstance(ga, Exception) or isinstance(gb, Exception):
    print(repr(ga), repr(gb)); sys.exit()
ga, gb = cmp.Graph(ga), cmp.Graph(gb)


def rounds(g, n):
    c = cmp.Colour(g, n)
    c.tm, c.mm, c.am, c.um = {}, {}, {}, {}
    out = {}
    for it in g.items:
        k = c.key(it[0], it[2])
        out.setdefault(k, [0, []])
        out[k][0] = (out[k][0] + c.col(it[1])) % cmp.P
        out[k][1].append(it)
    return {k: d for k, d in out.items() if d[0]}, c
for n in range(0, 7):
    x, ca = rounds(ga, n)
    y, cb = rounds(gb, n)
    bad = False
    for nm, p, o in (('-', x, y), ('+', y, x)):
        for k, d in p.items():
            if k not in o or o[k][0] != d[0]:
                bad = True
                it = d[1][0]
                print(n, nm, it[0].line, cmp.describe_one(it[0], mt.TRUE, it[2])[:300], '| owner', it[3].kind if it[3] else None, '| loop', it[0].loop and mt.show_t(it[0].loop), '' if k not in o else 'COND')
                for z in d[1]:
                    print('       WHEN', mt.show(z[1], -6)[:600])
    if bad:
        break
else:
    print('no difference in items')
    ua = sorted((c.prev[n] for n in ga.uniqs for c in [ca]))
    for nm, g, c, oc, og in (('-', ga, ca, cb, gb), ('+', gb, cb, ca, ga)):
        other = set(oc.prev.values())
        for n, u in g.uniqs.items():
            if c.prev[n] not in other:
                print(nm, u.kind, mt.show_t(u)[:100], u.__dict__.get('line'), 'init', mt.show(u.init)[:200] if u.kind == 'mu' else '', 'next', mt.show(u.next)[:400] if u.kind == 'mu' and u.next is not None else '', 'gexit', mt.show(u.gexit)[:300] if u.kind == 'loop' else '')
