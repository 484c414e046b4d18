"""Bisimulation-style comparison of two guarded-effect graphs by iterated colouring.

Every term, value, unique node and effect gets a colour (an element of GF(2^61-1)).  Boolean structure is coloured
by evaluating the (unique) multilinear polynomial of the decision diagram at pseudo-random points that depend only on
the colour of each atom, so the colour does not depend on the variable order, on how a condition was nested or split,
or on how many effects a case analysis was distributed over.
"""
import functools
import hashlib
from .vg import Effect, poly, repacked
from .mt import (restrict, T, MT, Uniq, Term, leaf, TRUE, FALSE, NONE, UNDEF, TRUE_T, FALSE_T, NONE_T, UNDEF_T, TooBig, ite, AND, OR, NOT, mapn,
                 leaves, atom_term, const, show, show_t)

P = (1 << 61) - 1
ROUNDS = 7
_sh = {}


def sh(s):
    r = _sh.get(s)
    if r is None:
        r = int.from_bytes(hashlib.blake2b(s.encode('utf8', 'replace'), digest_size=8).digest(), 'big') % P
        _sh[s] = r
    return r


def Hm(*xs):
    h = hash(xs) & 0xFFFFFFFFFFFFFFFF
    h = (h ^ (h >> 31)) * 0x9E3779B97F4A7C15 & 0xFFFFFFFFFFFFFFFF
    h = (h ^ (h >> 29)) * 0xBF58476D1CE4E5B9 & 0xFFFFFFFFFFFFFFFF
    return (h ^ (h >> 32)) % P


def fnum(c):
    if isinstance(c, int):
        return c % P
    if c == int(c) if c == c and c not in (float('inf'), float('-inf')) else False:
        return int(c) % P
    v = sh('float:%r' % abs(c))
    return v if c > 0 else (-v) % P


def hoist_t(t):
    """expose alternatives nested in tuples / keyword wrappers"""
    if t[0] == 'mt':
        return hoist(t[1])
    if t[0] in ('tuple', 'kw', 'concat'):
        k = 2 if t[0] == 'kw' else 1
        comps = [hoist_t(x) if isinstance(x, Term) else (hoist(x) if isinstance(x, MT) else None) for x in t[k:]]
        if any(c is None for c in comps):
            return leaf(t)
        tot = 1
        for c in comps:
            tot *= c.nl
        if tot == 1:
            return leaf(T(*(t[:k] + tuple(c.term for c in comps))))
        if tot <= 24:
            return mapn(lambda *ts: leaf(T(*(t[:k] + tuple(ts)))), *comps)
        return leaf(t)
    if t[0] == 'app' and t[1] == 'ctor:CoordPayload' and len(t) == 4:
        comps = [hoist(x) for x in t[2]]
        tot = 1
        for c in comps:
            tot *= c.nl
        if 1 < tot <= 24:
            return mapn(lambda *ts: leaf(T('app', t[1], tuple(leaf(x) for x in ts), t[3])), *comps)
    if t[0] == 'uniq' and t[1].kind == 'alloc' and t[1].alias is None:
        u = t[1]
        vals = list(u.args) + [v for _, v in u.kw]
        comps = [hoist(x) for x in vals]
        tot = 1
        for c in comps:
            tot *= c.nl
        if 1 < tot <= 64 or any(c is not v for c, v in zip(comps, vals)) and tot <= 64:
            return mapn(lambda *ts: leaf(T('allocv', u, *ts)), *comps)
    if t[0] == 'uniq' and t[1].kind == 'res' and t[1].alias is None:
        e = t[1].effect
        comps = e.__dict__.get('_hargs')
        if comps is None:
            comps = [hoist(x) for x in e.args]
            n = 1
            for c in comps:
                n *= c.nl
            same = n == 1 and all(c is x for c, x in zip(comps, e.args))
            e._hargs = comps = () if same or n > 32 else tuple(comps)
        if comps:
            return mapn(lambda *ts: leaf(T('resv', t[1], *ts)), *comps)
    if t[0] == 'uniq' and t[1].kind == 'newlist' and t[1].alias is None:
        vals = straight(t[1])
        if vals:
            comps = [hoist(x) for x in vals]
            tot = 1
            for c in comps:
                tot *= c.nl
            if tot <= 64:
                return mapn(lambda *ts: leaf(T('listv', t[1], *ts)), *comps)
    return leaf(t)


def straight(u):
    """the elements of a list display nothing else is done to, else None"""
    r = u.__dict__.get('_straight', 0)
    if r == 0:
        r = []
        for e in u.__dict__.get('touches', ()):
            if e.kind != 'm' or e.callee != 'append' or e.loop is not u.loop or e.guard is not u.ga or len(e.args) != 2 or \
                    e.args[0].atom is not None or len(r) > 7:
                r = None
                break
            if any(x[0] == 'uniq' and x[1].kind == 'newlist' for _, x in leaves(e.args[1])):
                r = None
                break
            r.append(e.args[1])
        u._straight = r
    return r


def hoist(m):
    return mapn(hoist_t, m)


def known_consts(*bs):
    """{x: [(c, x is c)]} for the constants None and strings the programs compare values with"""
    out = {}
    seen = set()

    def walk(m):
        st = [m]
        while st:
            m = st.pop()
            if id(m) in seen or m.atom is None:
                continue
            seen.add(id(m))
            t = atom_term(m.atom)
            if t[0] == 'eqk' and (t[2] is NONE_T or t[2][0] == 'const' and isinstance(t[2][1], str)):
                d = out.setdefault(t[1], {})
                d[t[2]] = True
            elif t[0] == 'eq0' and t[1][0] == 'lin':
                p = poly(t[1])
                ks = [k for k in p if k != ()]
                if len(ks) == 1 and len(ks[0]) == 1 and p[ks[0]] in (1, -1) and isinstance(p.get((), 0), int):
                    out.setdefault(ks[0][0], {})[T('const', -p.get((), 0) * p[ks[0]])] = True
            st.append(m.hi)
            st.append(m.lo)
    for b in bs:
        for e in b.effects:
            walk(e.guard)
            for a in e.args:
                walk(a)
    return out


def with_consts(e, consts):
    """args of e with x replaced by c where x is c"""
    from .vg import eqk, cmp3

    def one(t):
        r = leaf(t)
        if t[0] == 'lin':
            p = poly(t)
            ks = [k for k in p if k != ()]
            if len(ks) != 1 or len(ks[0]) != 1:
                return r
            x = ks[0][0]
            for c in consts.get(x, ()):
                if isinstance(c[1], int):
                    r = ite(cmp3(x, c)[1], leaf(T('const', p[ks[0]] * c[1] + p.get((), 0))), r)
            return r
        for c in consts.get(t, ()):
            r = ite(cmp3(t, c)[1] if type(c[1]) is int else eqk(t, c), leaf(c), r)
        return r
    first = 1 if e.kind in ('m', 'setitem', 'setattr') else 0
    return [a if i < first else mapn(one, a) for i, a in enumerate(e.args)]


def expand(e, consts=None):
    """[(condition, (arg terms))] for an effect"""
    if consts:
        if e.guard is FALSE:
            return []
        args = with_consts(e, consts)
        if all(a is b for a, b in zip(args, e.args)):
            return expand(e)
        saved, e.args, exp, e.exp, op = e.args, args, e.exp, None, getattr(e, 'opaque', None)
        try:
            return expand(e)
        finally:
            e.args, e.exp, e.opaque = saved, exp, op
    if e.exp is not None:
        return e.exp
    if e.guard is FALSE:
        e.exp = []
        return e.exp
    args = [a if i == 0 and e.kind == 'm' and a.atom is None and a.term[0] == 'uniq' and a.term[1].kind == 'newlist' else hoist(a)
            for i, a in enumerate(e.args)]
    try:
        m = mapn(lambda g, *ts: UNDEF if g is FALSE_T else leaf(T('efk', *ts)), e.guard, *args, budget=4000)
    except TooBig:
        e.opaque = True
        e.exp = [(e.guard, tuple(T('mt', a) if a.atom is not None else a.term for a in args))]
        return e.exp
    lv = leaves(m)
    if len(lv) > 200:
        e.opaque = True
        e.exp = [(e.guard, tuple(T('mt', a) if a.atom is not None else a.term for a in args))]
    else:
        e.exp = [(c, t[1:]) for c, t in lv if t is not UNDEF_T]
    return e.exp


LOCAL = ('newlist', 'newdict', 'newset', 'alloc')


class Graph:
    """All effects of a built function, with the local containers they target."""

    def __init__(self, b, consts=None):
        self.b = b
        self.consts = consts
        self.items = []       # (effect, cond, argterms, owner)   owner: None = function level, or Closure
        self.closures = []
        self.uniqs = {}
        self.opaque = False
        self.unpacked = b.unpacked
        self.counts = None
        self._collect(b.effects, None)

    def _collect(self, effects, owner):
        for e in effects:
            for c, ts in expand(e, self.consts):
                tgt = owner
                if e.kind in ('m', 'setitem', 'setattr') and ts and ts[0][0] in ('uniq', 'allocv') and ts[0][1].kind in LOCAL \
                        and ts[0][1].alias is None:
                    tgt = ts[0][1]
                self.items.append((e, c, ts, tgt))
                for t in ts:
                    self._walk(t)
                self._walk(c)
            if getattr(e, 'opaque', False):
                self.opaque = True
            if e.loop is not None:
                self._walk_u(e.loop)

    def _walk(self, x):
        st = [x]
        seen = self.__dict__.setdefault('_seen', set())
        while st:
            x = st.pop()
            if id(x) in seen:
                continue
            if isinstance(x, MT):
                seen.add(id(x))
                if x.atom is None:
                    st.append(x.term)
                else:
                    st.append(atom_term(x.atom))
                    st.append(x.hi)
                    st.append(x.lo)
            elif isinstance(x, Uniq):
                self._walk_u(x)
            elif isinstance(x, Term):
                seen.add(id(x))
                st.extend(y for y in x if isinstance(y, (MT, Uniq, tuple)))
            elif isinstance(x, tuple):
                st.extend(y for y in x if isinstance(y, (MT, Uniq, tuple)))

    def _walk_u(self, u):
        if u.n in self.uniqs:
            return
        self.uniqs[u.n] = u
        if u.alias is not None:
            self._walk(u.alias)
            return
        k = u.kind
        if k == 'mu':
            self._walk_u(u.loop)
            self._walk(u.init)
            if u.next is not None:
                self._walk(u.next)
        elif k == 'loop':
            if u.parent is not None:
                self._walk_u(u.parent)
            if u.iter is not None:
                for x in u.iter:
                    self._walk(x)
            self._walk(u.gexit)
        elif k == 'res':
            for a in u.effect.args:
                self._walk(a)
            if u.effect.loop is not None:
                self._walk_u(u.effect.loop)
        elif k == 'alloc':
            for a in u.args:
                self._walk(a)
            for _, a in u.kw:
                self._walk(a)
            if u.loop is not None:
                self._walk_u(u.loop)
        elif k in ('newlist', 'newdict', 'newset'):
            for a in k == 'newlist' and straight(u) or ():
                self._walk(a)
            if u.loop is not None:
                self._walk_u(u.loop)
        elif k == 'closure':
            self.closures.append(u)
            self._collect(u.effects, u)
        elif k == 'classclosure':
            for nm, c in getattr(u, 'cm', {}).items():
                if c is not None:
                    self._walk_u(c)
            for nm in u.attrs:
                self._walk(u.attrs[nm])
        elif k == 'try':
            for e in u.effects:
                for a in e.args:
                    self._walk(a)


class Colour:
    def __init__(self, g, rounds=ROUNDS):
        self.g = g
        self.rounds = rounds
        self.prev = {}               # uniq n -> colour
        self.effprev = {}            # effect n -> Σ contribution
        self.history = []
        for r in range(rounds):
            self.round()
        self.tm, self.mm, self.am, self.um = {}, {}, {}, {}      # stabilised colours from here on

    # -------------------------------------------------------------- one round
    def round(self):
        self.tm = {}
        self.mm = {}
        self.am = {}
        self.um = {}
        content = {}
        eff = {}
        table = {}
        for (e, c, ts, tgt) in self.g.items:
            k = self.key(e, ts)
            v = self.col(c)
            contrib = v * k % P
            eff[e.n] = (eff.get(e.n, 0) + contrib) % P
            if tgt is not None:
                if tgt.kind != 'closure' or self.g.counts is None or self.g.counts(e):
                    content[tgt.n] = (content.get(tgt.n, 0) + contrib) % P
            else:
                if ts and ts[0] and ts[0][0] == 'uniq' and ts[0][1].kind in ('mu', 'newlist') and ts[0][1].alias is None and \
                        (e.kind != 'call' or e.callee and e.callee.startswith('.')):
                    # what is done to a container a loop variable holds is part of that variable
                    m = ts[0][1].n
                    content[m] = (content.get(m, 0) + contrib) % P
                d = table.get(k)
                if d is None:
                    table[k] = [v, [(e, c, ts)]]
                else:
                    d[0] = (d[0] + v) % P
                    d[1].append((e, c, ts))
        table = {k: d for k, d in table.items() if d[0]}
        self.history.append(table)
        nxt = {}
        for n, u in self.g.uniqs.items():
            nxt[n] = self.refine(u, content.get(n, 0))
        self.prev = nxt
        self.effprev = eff

    def key(self, e, ts):
        return Hm(sh('ef'), sh(e.kind), sh(e.callee or ''), self.lcol(e.loop), *[self.tcol(t) for t in ts])

    # -------------------------------------------------------------- uniq colours
    def refine(self, u, content):
        if u.alias is not None:
            return self.col(u.alias)
        k = u.kind
        if k == 'mu':
            nx = self.col(ite(u.loop.gback, u.next, UNDEF)) if u.next is not None and hasattr(u.loop, 'gback') else 0
            return Hm(sh('mu'), self.lcol(u.loop), self.col(u.init), nx, content)
        if k == 'loop':
            return Hm(sh('loopx'), self.col(u.gexit))
        if k in ('newlist', 'newdict', 'newset', 'alloc'):
            # content relative to the guard under which the container exists
            if content and u.ga is not TRUE:
                w = self.col(u.ga)
                if w:
                    content = content * pow(w, P - 2, P) % P
            return content if k == 'alloc' else Hm(sh(k), self.lcol(u.loop), content)
        if k == 'closure':
            return Hm(sh('closure'), u.arity if isinstance(u.arity, int) else 0, 1 if u.gen else 0, content)
        if k == 'classclosure':
            xs = []
            for nm in sorted(getattr(u, 'cm', {})):
                c = u.cm[nm]
                if c is not None:
                    xs.append(Hm(sh(nm), self.prev.get(c.n, 0)))
            for nm in sorted(getattr(u, 'attrs_written', ())):
                if nm in u.attrs:
                    xs.append(Hm(sh('at:' + nm), self.col(u.attrs[nm])))
            return Hm(sh('cc'), *xs)
        if k == 'try':
            return Hm(sh('try'), sum(self.effprev.get(e.n, 0) for e in u.effects) % P)
        return self.ucol(u)

    def lcol(self, L):
        """colour of a loop"""
        if L is None:
            return 1
        r = self.um.get(L.n)
        if r is not None:
            return r
        it = 0
        if L.iter is not None:
            it = self.itcol(L, L.iter)
        r = Hm(sh('loop'), sh(L.kind2), it, self.lcol(L.parent), self.prev.get(L.n, 0))
        self.um[L.n] = r
        return r

    def itcol(self, L, it):
        """colour of what a loop iterates over; where only the number of iterations matters, of that number"""
        if it[0] == 'zip':
            cs = sorted({self.itcol(L, x) for x in it[1:]})
            return cs[0] if len(cs) == 1 else Hm(sh('zip'), *cs)
        if it[0] == 'seq':
            x = it[1]
            if x.atom is None and x.term[0] == 'uniq':
                n = self.made_len(x.term[1], L)
                if n is not None:
                    return Hm(sh('upto'), self.xcol(n))
                n = self.made_count(x.term[1], L)
                if n is not None:
                    return Hm(sh('upto'), n)
        if it[0] == 'upto' and it[1].__class__ is Term and it[1][0] == 'app' and it[1][1] == 'len':
            return Hm(sh('upto'), self.xcol(it[1]))
        if it[0] == 'seq':
            x = it[1]
            if x.atom is None and x.term[0] != 'sub':
                return Hm(sh('upto'), self.tcol(T('app', 'len', (x,), frozenset())))
        return Hm(*[sh(x) if isinstance(x, str) else self.icol(x) for x in it])

    def made_len(self, u, L=None, ver=None):
        """the number of elements of a local list, from the one loop or the straight code that made it"""
        if u.kind != 'newlist' or u.alias is not None:
            return None
        ts = [e for e in u.__dict__.get('touches', ()) if e.kind != 'setitem']
        if any(e.kind != 'm' or e.callee != 'append' or e.guard is not u.ga for e in ts):
            return None
        if ver is not None and not all(e in ver for e in ts):
            return None
        if L is not None and (len(ts) != 1 or ts[0].loop is u.loop or ts[0].loop is None or ts[0].loop.n > L.n):
            return None
        if ts and all(e.loop is u.loop for e in ts):
            return T('const', len(ts))
        if len(ts) != 1:
            return None
        M = ts[0].loop
        if M is None or M.kind2 != 'for' or M.parent is not u.loop or M.gexit is not FALSE or M.iter is None:
            return None
        if ver is not None and any(isinstance(x, tuple) and len(x) == 3 and x[1] is M for x in ver):
            return None
        while L is not None:
            if L is M:
                return None
            L = L.parent
        it = M.iter
        if it[0] == 'upto':
            return it[1]
        if it[0] == 'seq' and it[1].atom is None:
            return T('app', 'len', (it[1],), frozenset())
        return None

    def made_count(self, u, L=None, ver=None):
        """colour of the number of elements of a local list that only grows: when and in which loops it does"""
        if u.kind != 'newlist' or u.alias is not None:
            return None
        ts = [e for e in u.__dict__.get('touches', ()) if e.kind != 'setitem']
        if not ts or any(e.kind != 'm' or e.callee not in ('append', 'insert') for e in ts):
            return None
        if ver is not None and (set(ver) != set(ts)):
            return None
        for e in ts:
            M = e.loop
            while L is not None and M is not None and M is not u.loop:
                N = L
                while N is not None:
                    if N is M:
                        return None
                    N = N.parent
                M = M.parent
        s = 0
        for e in ts:
            s += self.col(e.guard) * Hm(sh('grow'), self.lcol(e.loop)) % P
        return Hm(sh('count'), self.lcol(u.loop), s % P)

    def icol(self, x):
        if isinstance(x, tuple) and not isinstance(x, Term):
            return Hm(*[sh(y) if isinstance(y, str) else self.icol(y) for y in x])
        return self.xcol(x)

    def ucol(self, u):
        if u.alias is not None:
            return self.col(u.alias)
        r = self.um.get(u.n)
        if r is not None:
            return r
        k = u.kind
        if k == 'loop':
            return self.lcol(u)
        if k == 'res':
            e = u.effect
            args = e.args
            if self.g.consts and e.guard is not FALSE:
                new = with_consts(e, self.g.consts)
                args = [x if x is y else restrict(x, e.guard) for x, y in zip(new, args)]
            ts = [a.term if a.atom is None else T('mt', a) for a in args]
            r = Hm(sh('res'), self.key(e, ts))
        elif k == 'newlist' and straight(u):
            r = self.listcol(u, [self.col(a) for a in straight(u)])
        elif k == 'alloc':
            r = self.alloccol(u, [self.col(a) for a in u.args] + [self.col(v) for _, v in u.kw])
        else:
            r = self.prev.get(u.n)
            if r is None:
                r = sh(k)
                if k == 'mu':
                    r = Hm(sh('mu0'), self.lcol(u.loop))
        self.um[u.n] = r
        return r

    def listcol(self, u, cs):
        return Hm(sh('listv'), self.lcol(u.loop), *cs)

    def alloccol(self, u, cs):
        n = len(u.args)
        return Hm(sh('alloc'), sh(u.cls), self.lcol(u.loop), self.prev.get(u.n, 0),
                  *(cs[:n] + [Hm(sh(nm), c) for (nm, _), c in zip(u.kw, cs[n:])]))

    # -------------------------------------------------------------- values
    def col(self, m):
        r = self.mm.get(id(m))
        if r is not None:
            return r
        if m.atom is None:
            r = self.tcol(m.term)
        else:
            x = self.aval(m.atom)
            h = self.col(m.hi)
            l = self.col(m.lo)
            r = (l + x * (h - l)) % P
        self.mm[id(m)] = r
        return r

    def aval(self, a):
        r = self.am.get(a)
        if r is not None:
            return r
        t = atom_term(a)
        if t[0] == 'gt0':
            r = Hm(sh('sgn'), self.raw(t[1]))
        elif t[0] == 'eq0':
            d = self.raw(t[1])
            p = Hm(sh('sgn'), d)
            n = Hm(sh('sgn'), (-d) % P)
            z = (1 - p - n) % P
            r = z * pow((1 - p) % P, P - 2, P) % P
        elif t[0] == 'thr':
            q = self.raw(t[1])
            w = self.reach_w(q - t[2])
            lo = 1 if t[3] is None else self.reach_w(q - t[3])
            hi = 0 if t[4] is None else self.reach_w(q - t[4])
            r = (w - hi) * pow((lo - hi) % P, P - 2, P) % P
        elif t[0] == 'isinst' and len(t) > 3:
            x = self.tcol(t[1])
            rest = 1
            for k in t[3:]:
                rest -= Hm(sh('isinst'), x, self.tcol(k))
            r = Hm(sh('isinst'), x, self.tcol(t[2])) * pow(rest % P, P - 2, P) % P
        elif t[0] == 'isinst':
            r = Hm(sh('isinst'), self.tcol(t[1]), self.tcol(t[2]))
        elif t[0] == 'eqk':
            x = self.tcol(t[1])
            rest = 1
            for k in t[3:]:
                rest -= Hm(sh('eqk'), x, self.tcol(k))
            r = Hm(sh('eqk'), x, self.tcol(t[2])) * pow(rest % P, P - 2, P) % P
        else:
            r = Hm(sh('atom'), self.tcol(t))
        self.am[a] = r
        return r

    @staticmethod
    def reach_w(d):
        """weight of d >= 0 for an integer d; complementary to that of -d - 1 >= 0"""
        d %= P
        e = (-d - 1) % P
        return Hm(sh('thr'), d) if d < e else (1 - Hm(sh('thr'), e)) % P

    def raw(self, t):
        if t[0] == 'lin':
            s = 0
            for k, c in t[1]:
                v = fnum(c)
                for x in k:
                    v = v * self.tcol(x) % P
                s = (s + v) % P
            return s
        return self.tcol(t)

    def tcol(self, t):
        r = self.tm.get(id(t))
        if r is not None:
            return r
        op = t[0] if t else 'empty'
        if t is TRUE_T:
            r = 1
        elif t is FALSE_T:
            r = 0
        elif op == 'const':
            r = Hm(sh('const'), sh('%s:%r' % (type(t[1]).__name__, t[1])))
        elif op == 'lin':
            r = self.raw(t)
        elif op == 'param':
            r = Hm(sh('param'), sh(str(t[1])))
        elif op == 'uniq':
            r = self.ucol(t[1])
        elif op == 'mt':
            r = self.col(t[1])
        elif op == 'allocv':
            r = self.alloccol(t[1], [self.tcol(x) for x in t[2:]])
        elif op == 'resv':
            r = Hm(sh('res'), self.key(t[1].effect, t[2:]))
        elif op == 'listv':
            r = self.listcol(t[1], [self.tcol(x) for x in t[2:]])
        elif op == 'at':
            L, G, v = t[1], t[2], t[3]
            r = Hm(sh('at'), self.lcol(L), self.col(G), self.col(ite(G, v, UNDEF)))
        elif op == 'exit':
            r = Hm(sh('exit'), self.lcol(t[1]), self.col(t[2]))
        elif op == 'fin':
            r = Hm(sh('fin'), self.lcol(t[1]), self.tcol(t[2]))
        elif op == 'last':
            r = Hm(sh('last'), self.lcol(t[1]), self.col(t[2]))
        elif op in ('eq', 'is'):
            r = Hm(sh(op), *sorted((self.tcol(t[1]), self.tcol(t[2]))))
        elif op == 'app' and t[1] in ('min', 'max'):
            r = Hm(sh('app'), sh(t[1]), *sorted(self.col(x) for x in t[2]))
        elif op == 'app' and t[1] == 'len' and len(t[2]) == 1 and t[2][0].atom is None and t[2][0].term[0] == 'uniq' and \
                self.made_len(t[2][0].term[1], None, t[3]) is not None:
            r = self.xcol(self.made_len(t[2][0].term[1], None, t[3]))
        elif op == 'app' and t[1] == 'len' and len(t[2]) == 1 and t[2][0].atom is None and t[2][0].term[0] == 'uniq' and \
                self.made_count(t[2][0].term[1], None, t[3]) is not None:
            r = self.made_count(t[2][0].term[1], None, t[3])
        elif op == 'app':
            r = Hm(sh('app'), sh(t[1]) if isinstance(t[1], str) else self.xcol(t[1]), len(t[2]),
                   *[self.col(x) for x in t[2]])
            if len(t) > 4:
                r = Hm(r, *sorted(self.tcol(x) for x in t[4]))
        elif op == 'attr':
            r = Hm(sh('attr'), self.tcol(t[1]), sh(t[2]))
        elif op == 'sub':
            r = Hm(sh('sub'), self.tcol(t[1]), self.xcol(t[2]))
        elif op == 'slice_of':
            r = Hm(sh('slice_of'), self.tcol(t[1]), self.tcol(t[2]))
        elif op == 'in':
            r = Hm(sh('in'), self.tcol(t[1]), self.tcol(t[2]))
        elif op == 'glob':
            r = self.globcol(t)
        elif op == 'tuple' and self.g.unpacked and repacked(t, self.g.unpacked) is not t:
            r = self.tcol(repacked(t, self.g.unpacked))
        elif op == 'tuple' and any(x.__class__ is Term and x[0] == 'mt' for x in t[1:]):
            m = hoist_t(t)
            r = self.col(m) if m.atom is not None else \
                Hm(sh('op:' + str(op)), *[self.xcol(x) for x in (t if m.term is t else m.term)[1:]])
        else:
            r = Hm(sh('op:' + str(op)), *[self.xcol(x) for x in t[1:]])
        self.tm[id(t)] = r
        return r

    def globcol(self, t):
        if len(t) > 2 and t[2] == 'var':
            d = self.g.b.prog.var_dump(t[1])
            if d is not None:
                return Hm(sh('globvar'), sh(d))
        return Hm(sh('glob'), sh(t[1]))

    def xcol(self, x):
        if isinstance(x, Term):
            return self.tcol(x)
        if isinstance(x, MT):
            return self.col(x)
        if isinstance(x, Uniq):
            return self.ucol(x)
        if isinstance(x, str):
            return sh('s:' + x)
        if isinstance(x, frozenset):
            return 7
        if isinstance(x, tuple):
            return Hm(*[self.xcol(y) for y in x])
        return sh('%s:%r' % (type(x).__name__, x))


class Diff:
    def __init__(self, mode, rnd, only_ref, only_cur, ga=None, gb=None):
        self.ga, self.gb = ga, gb
        self.mode = mode
        self.rnd = rnd
        self.only_ref = only_ref        # [(effect, cond, ts)]
        self.only_cur = only_cur


def diff_tables(a, b):
    oa, ob = [], []
    for k, d in a.items():
        e = b.get(k)
        if e is None or e[0] != d[0]:
            oa.append(d[1])
    for k, d in b.items():
        e = a.get(k)
        if e is None or e[0] != d[0]:
            ob.append(d[1])
    return oa, ob


class Order:
    """Ordered pairs of conflicting effects, and effect -> read dependencies, in terms of the stabilised colours.

    An ordered pair (x, e) is recorded when x may reach e and both certainly concern a common object; a dependency
    (x, t) when the read t may see x and certainly looks at an object x touches.  Only certain conflicts are recorded,
    so reordering statements that merely *might* interfere is never reported.
    """

    def __init__(self, c):
        self.c = c
        self.g = c.g
        self.pairs = {}       # key -> [weight, descr]
        self.reads = {}       # key -> descr
        self._b = {}
        self._rd = {}
        self.byeff = {}
        self.live()
        for it in self.g.items:
            self.byeff.setdefault(it[0].n, []).append(it)
        for it in self.g.items:
            if self.dead(it):
                continue
            self.item(it)
        for u in list(self.lu.values()):
            self.uniq_reads(u)
        self.pairs = {k: d for k, d in self.pairs.items() if d[0]}

    # which local containers are used at all
    def live(self):
        own = {}
        for it in self.g.items:
            if it[3] is not None:
                own.setdefault(it[3].n, []).append(it)
        self.lu = {}
        g2 = Graph.__new__(Graph)
        g2.uniqs = self.lu
        g2.closures = []
        g2._collect = lambda *a: None
        for it in self.g.items:
            if it[3] is None:
                self._walk_item(g2, it)
        done = set()
        while True:
            todo = [n for n in self.lu if n in own and n not in done]
            if not todo:
                break
            for n in todo:
                done.add(n)
                for it in own[n]:
                    self._walk_item(g2, it)

    def _walk_item(self, g2, it):
        g2._walk(it[1])
        for t in it[2]:
            g2._walk(t)
        if it[0].loop is not None:
            g2._walk_u(it[0].loop)

    def dead(self, it):
        return it[3] is not None and (it[3].n not in self.lu or it[3].kind == 'newlist' and bool(straight(it[3])))

    # objects an effect item certainly concerns
    def wr(self, it):
        e, c, ts, tgt = it
        k = (e.n, ts)
        r = self._b.get(k)
        if r is None:
            r = set()
            for t in ts:
                self.bases(t, r, e.kind == 'yield')
                if e.kind not in ('call', 'yield'):
                    break
            self._b[k] = r
        return r

    def own(self, it):
        """the very objects a store or a call concerns, not what holds them"""
        e, c, ts, tgt = it
        if e.kind in ('m', 'setitem') and ts and ts[0][0] == 'sub':
            return {self.c.tcol(ts[0])}
        if e.kind == 'call':
            k = (e.n, ts, 'own')
            r = self._b.get(k)
            if r is None:
                r = set()
                for t in ts:
                    if t[0] == 'sub':
                        r.add(self.c.tcol(t))
                    else:
                        self.bases(t, r, False)
                self._b[k] = r
            return r
        return self.wr(it)

    def bases(self, t, out, deep=False, d=0):
        B = self.c
        if t[0] in ('const', 'glob', 'lin', 'idx', 'fmt') or d > 4:
            return
        if t[0] == 'sub':
            out.add(B.tcol(t))
            self.bases(t[1], out, False, d + 1)
            return
        if t[0] == 'attr' and not deep:
            out.add(Hm(B.tcol(t[1]), sh(t[2])))
            out.add(B.tcol(t))
            return
        if t[0] == 'tuple' or (t[0] == 'app' and t[1] == 'ctor:CoordPayload'):
            for x in (t[1:] if t[0] == 'tuple' else [m.term for m in t[2] if m.atom is None]):
                if isinstance(x, Term):
                    self.bases(x, out, deep, d + 1)
            return
        if t[0] == 'mt':
            for _, x in leaves(t[1]):
                self.bases(x, out, deep, d + 1)
            return
        out.add(B.tcol(t))

    def rdb(self, t):
        """objects whose content the read term t certainly looks at"""
        B = self.c
        if t[0] == 'attr':
            return {B.tcol(t[1])}
        if t[0] in ('sub', 'slice_of'):
            r = {B.tcol(t[1])}
            b = t[1]
            if b[0] == 'attr':
                r.add(Hm(B.tcol(b[1]), sh(b[2])))
                r.add(B.tcol(b[1]))
            return r
        if t[0] == 'in':
            return self.rdb(T('sub', t[2], T('const', 0), frozenset()))
        if t[0] == 'app':
            r = set()
            for a in t[2]:
                for _, x in leaves(a):
                    if x[0] in ('const', 'glob', 'lin', 'idx'):
                        continue
                    r.add(B.tcol(x))
                    if x[0] == 'attr':
                        r.add(Hm(B.tcol(x[1]), sh(x[2])))
                        r.add(B.tcol(x[1]))
            return r
        return set()

    def sees(self, xi, t):
        """does the read t certainly look at what item xi changes?"""
        x, c, ts, tgt = xi
        if t[0] == 'attr':
            if x.kind == 'setattr':
                return bool(ts) and ts[1] is T('const', t[2]) and self.c.tcol(ts[0]) == self.c.tcol(t[1])
            if x.kind == 'call':
                if t[2] in self.g.b.prog.list_attrs or 'a:' + t[2] not in x.mods:
                    return False
                return bool(self.own(xi) & self.rdb(t))
            return False
        if x.kind == 'setattr':
            if t[0] == 'app' and t[1] != 'len':
                return bool(self.wr(xi) & self.rdb(t))
            return False
        if t[0] != 'app' or t[1] == 'len':
            return bool(self.own(xi) & self.rdb(t))
        return bool(self.wr(xi) & self.rdb(t))

    def conflict(self, xi, ei):
        x, e = xi[0], ei[0]
        if x.kind == 'raise' or e.kind in ('raise', 'return') or x.kind == 'return':
            return False
        if x.kind == 'yield' or e.kind == 'yield':
            o = ei if x.kind == 'yield' else xi
            if x.kind == e.kind:
                return True
            if o[3] is not None and o[3].kind in LOCAL:
                return bool(self.wr(xi) & self.wr(ei))
            return True
        if x.kind == 'setattr' and e.kind == 'setattr' and xi[2][1] is not ei[2][1]:
            return False
        if x.kind == 'call' and e.kind == 'call' and x.callee and e.callee and x.callee != e.callee \
                and x.callee.split('.')[0] == e.callee.split('.')[0]:
            a = {self.c.tcol(t) for t in xi[2] if t is not NONE.term and t[0] != 'glob'}
            b = {self.c.tcol(t) for t in ei[2] if t is not NONE.term and t[0] != 'glob'}
            if a & b:
                return True
        return bool(self.own(xi) & self.own(ei))

    def item(self, ei):
        e, c, ts, tgt = ei
        C = self.c
        ke = C.key(e, ts)
        for x in (e.ver or frozenset()) | e.rver:
            if isinstance(x, tuple) or x is e:
                continue
            for xi in self.byeff.get(x.n, ()):
                if self.dead(xi) or not self.conflict(xi, ei):
                    continue
                w = C.col(AND(xi[1], c))
                if not w:
                    continue
                k = Hm(sh('pair'), C.key(x, xi[2]), ke)
                d = self.pairs.get(k)
                if d is None:
                    self.pairs[k] = [w, [(xi, ei)]]
                else:
                    d[0] = (d[0] + w) % P
                    d[1].append((xi, ei))
        for t in ts:
            self.add_reads(self.read_terms(t), Hm(sh('by'), ke), ei)
        self.add_reads(self.read_terms(c), 0, ei, c)

    def uniq_reads(self, u):
        k = u.kind
        xs = []
        if k == 'mu':
            xs = [u.init] + ([u.next] if u.next is not None else [])
        elif k == 'loop':
            if u.iter is not None:
                xs = list(u.iter)
        elif k == 'alloc':
            xs = list(u.args) + [v for _, v in u.kw]
        elif u.alias is not None:
            xs = [u.alias]
        for x in xs:
            if not isinstance(x, str):
                self.add_reads(self.read_terms(x), 0, None)

    def read_terms(self, x):
        """read terms (with a version) nested in x, not crossing unique nodes"""
        r = self._rd.get(id(x))
        if r is not None:
            return r
        out = set()
        self._rd[id(x)] = out
        self._keep = getattr(self, '_keep', [])
        self._keep.append(x)
        if isinstance(x, MT):
            if x.atom is None:
                out |= self.read_terms(x.term)
            else:
                out |= self.read_terms(atom_term(x.atom))
                out |= self.read_terms(x.hi)
                out |= self.read_terms(x.lo)
        elif isinstance(x, Term):
            v = self.ver_of(x)
            if v:
                out.add(x)
            for y in x:
                if isinstance(y, (MT, tuple)) and not isinstance(y, Uniq):
                    out |= self.read_terms(y)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, (MT, tuple)) and not isinstance(y, Uniq):
                    out |= self.read_terms(y)
        return out

    @staticmethod
    def ver_of(t):
        op = t[0] if t else None
        if op in ('attr', 'slice_of', 'in', 'app'):
            v = t[3] if len(t) > 3 else None
        elif op == 'sub':
            v = t[3] if len(t) > 3 else None
        else:
            return None
        return v if isinstance(v, frozenset) else None

    def add_reads(self, ts, tag, ei, cond=None):
        C = self.c
        for t in ts:
            for x in self.ver_of(t):
                if isinstance(x, tuple) and not isinstance(x, Term):
                    if x[0] == 'c':
                        L = x[1]
                        for y in L.mods.get(x[2], ()):
                            for yi in self.byeff.get(y.n, ()):
                                if not self.dead(yi) and yi[0].kind != 'yield' and self.sees(yi, t):
                                    k = Hm(sh('carried'), C.key(y, yi[2]), C.tcol(t), C.lcol(L))
                                    self.reads.setdefault(k, (yi, t, ei, L))
                    continue
                for xi in self.byeff.get(x.n, ()):
                    if self.dead(xi) or not self.sees(xi, t):
                        continue
                    if ei is not None:
                        both = AND(xi[1], ei[1])
                        if both is FALSE or cond is not None and t not in self.read_terms(both):
                            continue
                    k = Hm(sh('read'), C.key(x, xi[2]), C.tcol(t), tag)
                    self.reads.setdefault(k, (xi, t, ei, None))


def compare(ba, bb, order=True, ignore=None, only=None):
    """None when equal, else a Diff (earliest round in which a difference shows).

    ignore(effect): differences in these effects do not count;  only(effect): nothing else counts."""
    d = compare1(ba, bb, order, ignore, only)
    if d is not None:
        cs = known_consts(ba, bb)
        if cs:
            d2 = compare1(ba, bb, order, ignore, only, cs)
            if d2 is None:
                return None
    return d


def compare1(ba, bb, order, ignore, only, consts=None):
    ga, gb = Graph(ba, consts), Graph(bb, consts)
    ga.unpacked = gb.unpacked = ba.unpacked | bb.unpacked
    ba.nitems, bb.nitems = len(ga.items), len(gb.items)

    def counts(e):
        return not (ignore is not None and ignore(e)) and (only is None or only(e))
    ga.counts = gb.counts = counts
    ca, cb = Colour(ga), Colour(gb)

    def sel(t):
        if ignore is None and only is None:
            return t
        return {k: d for k, d in t.items() if counts(d[1][0][0])}
    for r, (x, y) in enumerate(zip(ca.history, cb.history)):
        x, y = sel(x), sel(y)
        if {k: d[0] for k, d in x.items()} != {k: d[0] for k, d in y.items()}:
            oa, ob = diff_tables(x, y)
            return Diff('effects', r, oa, ob, ga, gb)
    if only is None and bb.undefs:
        ua, ub = [functools.reduce(OR, [g for g, _, _ in b.undefs], FALSE) for b in (ba, bb)]
        if ub is not FALSE and ca.col(ua) != cb.col(ub):
            # a variable read where the reference has set it
            return Diff('effects', 0, [], [[(Effect('raise', [const('NameError: ' + n)], g, None, l), g, (T('const', 'NameError: ' + n),))]
                                           for g, n, l in bb.undefs], ga, gb)
    if not order:
        return None
    oa, ob = Order(ca), Order(cb)
    f = lambda o: {k: d for k, d in o.pairs.items() if counts(d[1][0][0][0]) and counts(d[1][0][1][0])}
    pa, pb = f(oa), f(ob)
    if {k: d[0] for k, d in pa.items()} != {k: d[0] for k, d in pb.items()}:
        f = lambda p, q: [[d[1][0]] for k, d in p.items() if k not in q or q[k][0] != d[0]]
        return Diff('order', 0, f(pa, pb), f(pb, pa), ga, gb)
    f = lambda o: {k: d for k, d in o.reads.items() if counts(d[0][0]) and (d[2] is None or counts(d[2][0]))}
    ra, rb = f(oa), f(ob)
    if set(ra) != set(rb):
        f = lambda p, q: [[d] for k, d in p.items() if k not in q]
        return Diff('reads', 0, f(ra, rb), f(rb, ra), ga, gb)
    return None


def describe_one(e, c, ts):
    g = '' if c is TRUE else ' when ' + show(c)
    a = ', '.join(show_t(t) for t in ts)
    return '%s %s(%s)%s' % (e.kind, e.callee or '', a, g)


def describe(d, which, limit=4, width=400):
    out = []
    for group in which[:limit]:
        if d.mode == 'effects':
            e, c, ts = group[0]
            out.append((e.line, describe_one(e, c, ts)[:width]))
        elif d.mode == 'order':
            xi, ei = group[0]
            out.append((ei[0].line, ('line %d: %s  BEFORE  %s' % (
                xi[0].line, describe_one(xi[0], TRUE, xi[2])[:width // 2], describe_one(ei[0], TRUE, ei[2])))[:width]))
        else:
            xi, t, ei, L = group[0]
            out.append((ei[0].line if ei else xi[0].line, ('line %d: %s  SEEN BY%s  %s' % (
                xi[0].line, describe_one(xi[0], TRUE, xi[2])[:width // 2], ' (next iteration)' if L else '',
                show_t(t)))[:width]))
    return out
