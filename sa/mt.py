"""Hash-consed terms and multi-terminal decision diagrams.

A *term* is an interned tuple ``(op, *args)``; args are terms, python constants or
unique-node objects (`Uniq`).  A *value* is an MTBDD: either ('leaf', term) or
('node', atom, hi, lo).  Booleans are values whose leaves are TRUE / FALSE.
"""

_terms = {}


class Term(tuple):
    __slots__ = ()
    # identity comparison is enough because of interning
    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __hash__(self):
        return id(self)


def _key(a):
    if isinstance(a, Term):
        return ('t', id(a))
    if isinstance(a, (MT, Uniq)):
        return ('m', id(a))
    if isinstance(a, tuple):
        return ('u',) + tuple(_key(x) for x in a)
    if isinstance(a, frozenset):
        return ('f', a)
    return (type(a).__name__, a)


def T(*args):
    k = tuple(_key(a) for a in args)
    t = _terms.get(k)
    if t is None:
        t = Term(args)
        _terms[k] = t
    return t


class Uniq:
    """A unique node (allocation, loop, loop-carried variable, call result, closure)."""
    n = 0

    def __init__(self, kind, **kw):
        Uniq.n += 1
        self.n = Uniq.n
        self.kind = kind
        self.alias = None
        self.__dict__.update(kw)

    def __repr__(self):
        return '%s#%d' % (self.kind, self.n)


class MT:
    __slots__ = ('atom', 'hi', 'lo', 'term', 'nl')

    def __repr__(self):
        return show(self)


_leaf = {}
_node = {}
_atoms = {}        # term -> index
_atom_list = []


def leaf(t):
    assert isinstance(t, Term), t
    m = _leaf.get(id(t))
    if m is None:
        m = MT()
        m.atom = None
        m.term = t
        m.hi = m.lo = None
        m.nl = 1
        _leaf[id(t)] = m
    return m


def node(a, hi, lo):
    if hi is lo:
        return hi
    k = (a, id(hi), id(lo))
    m = _node.get(k)
    if m is None:
        m = MT()
        m.atom = a
        m.hi = hi
        m.lo = lo
        m.term = None
        m.nl = hi.nl + lo.nl
        _node[k] = m
    return m


def atom_id(t):
    i = _atoms.get(id(t))
    if i is None:
        i = len(_atom_list)
        _atom_list.append(t)
        _atoms[id(t)] = i
    return i


def atom_term(i):
    return _atom_list[i]


TRUE_T = T('const', True)
FALSE_T = T('const', False)
NONE_T = T('const', None)
TRUE = leaf(TRUE_T)
FALSE = leaf(FALSE_T)
NONE = leaf(NONE_T)
UNDEF_T = T('undef')
UNDEF = leaf(UNDEF_T)


def const(v):
    return leaf(T('const', v))


def atom(t):
    return node(atom_id(t), TRUE, FALSE)


_ite_memo = {}


def ite(f, g, h):
    if f is TRUE:
        return g
    if f is FALSE:
        return h
    if g is h:
        return g
    if g is TRUE and h is FALSE:
        return f
    k = (id(f), id(g), id(h))
    r = _ite_memo.get(k)
    if r is not None:
        return r
    v = min(m.atom for m in (f, g, h) if m.atom is not None)

    def co(m, b):
        if m.atom == v:
            return m.hi if b else m.lo
        return m
    r = node(v, ite(co(f, 1), co(g, 1), co(h, 1)), ite(co(f, 0), co(g, 0), co(h, 0)))
    _ite_memo[k] = r
    return r


def AND(a, b):
    return ite(a, b, FALSE)


def OR(a, b):
    return ite(a, TRUE, b)


def NOT(a):
    return ite(a, FALSE, TRUE)


class TooBig(Exception):
    pass


def mapn(fn, *ms, _memo=None, budget=None):
    """Apply fn (on leaf terms, returning an MT) to every leaf combination."""
    if _memo is None:
        _memo = {}
    if budget is not None and len(_memo) > budget:
        raise TooBig()
    k = tuple(id(m) for m in ms)
    r = _memo.get(k)
    if r is not None:
        return r
    vs = [m.atom for m in ms if m.atom is not None]
    if not vs:
        r = fn(*[m.term for m in ms])
    else:
        v = min(vs)
        hi = mapn(fn, *[(m.hi if m.atom == v else m) for m in ms], _memo=_memo, budget=budget)
        lo = mapn(fn, *[(m.lo if m.atom == v else m) for m in ms], _memo=_memo, budget=budget)
        # fn may introduce atoms above v: use ite
        r = ite(node(v, TRUE, FALSE), hi, lo)
    _memo[k] = r
    return r


def leaves(m, g=TRUE):
    """list of (condition, term) for each distinct leaf, condition conjoined with g."""
    if m.atom is None:
        return [] if g is FALSE else [(g, m.term)]
    order, seen, st = [], set(), [m]
    while st:
        x = st.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if x.atom is None:
            order.append(x)
        else:
            st.append(x.lo)
            st.append(x.hi)
    out = []
    for t in order:
        memo = {id(x): FALSE for x in order}
        memo[id(t)] = TRUE

        def rec(x):
            r = memo.get(id(x))
            if r is None:
                r = memo[id(x)] = node(x.atom, rec(x.hi), rec(x.lo))
            return r
        c = AND(rec(m), g)
        if c is not FALSE:
            out.append((c, t.term))
    return out


def restrict(m, g):
    """Simplify m assuming g (drop branches contradicting g)."""
    memo = {}

    def rec(m, g):
        if m.atom is None or g is TRUE:
            return m
        k = (id(m), id(g))
        if k in memo:
            return memo[k]
        a = node(m.atom, TRUE, FALSE)
        gh = AND(g, a)
        gl = AND(g, NOT(a))
        if gh is FALSE:
            r = rec(m.lo, gl)
        elif gl is FALSE:
            r = rec(m.hi, gh)
        else:
            r = ite(a, rec(m.hi, gh), rec(m.lo, gl))
        memo[k] = r
        return r
    return rec(m, g)


def subst(x, old, new, memo=None):
    """x with the term `old` replaced by the term `new` (plain reads and applications only, else None)"""
    if memo is None:
        memo = {}
    if x is old:
        return new
    if isinstance(x, Uniq) or not isinstance(x, (MT, tuple)):
        return x
    k = id(x)
    if k in memo:
        return memo[k]
    if isinstance(x, MT):
        if x.atom is not None:
            r = None if occurs(x, old) else x
        else:
            t = subst(x.term, old, new, memo)
            r = None if t is None else (x if t is x.term else leaf(t))
    elif isinstance(x, Term):
        if x and x[0] in ('attr', 'sub', 'app', 'tuple', 'kw'):
            ys = [subst(y, old, new, memo) for y in x]
            r = None if any(y is None and z is not None for y, z in zip(ys, x)) else \
                (x if all(y is z for y, z in zip(ys, x)) else T(*ys))
        else:
            r = None if occurs(x, old) else x
    else:
        ys = tuple(subst(y, old, new, memo) for y in x)
        r = None if any(y is None and z is not None for y, z in zip(ys, x)) else ys
    memo[k] = r
    return r


def occurs(x, old):
    seen = set()
    st = [x]
    while st:
        x = st.pop()
        if x is old:
            return True
        if id(x) in seen or isinstance(x, Uniq):
            continue
        seen.add(id(x))
        if isinstance(x, MT):
            st.extend([x.term] if x.atom is None else [atom_term(x.atom), x.hi, x.lo])
        elif isinstance(x, tuple):
            st.extend(y for y in x if isinstance(y, (MT, tuple)))
    return False


def noversion(x, memo=None):
    """x with the effect versions left out (for matching only)"""
    if memo is None:
        memo = {}
    if isinstance(x, frozenset):
        return None
    if isinstance(x, Uniq) or not isinstance(x, (MT, tuple)):
        return x
    r = memo.get(id(x))
    if r is None:
        if isinstance(x, MT):
            r = ('mt', noversion(x.term, memo)) if x.atom is None else x
        else:
            r = tuple(noversion(y, memo) for y in x)
        memo[id(x)] = r
    return r


def atoms_of(m, acc=None):
    if acc is None:
        acc = set()
    seen = set()
    st = [m]
    while st:
        x = st.pop()
        if id(x) in seen or x.atom is None:
            continue
        seen.add(id(x))
        acc.add(x.atom)
        st.append(x.hi)
        st.append(x.lo)
    return acc


# ---------------------------------------------------------------- printing
def show_t(t, d=0):
    if d > 7:
        return '..'
    if isinstance(t, MT):
        return show(t, d)
    if isinstance(t, Uniq):
        if t.alias is not None:
            return show_t(t.alias, d + 1)
        if t.kind == 'mu':
            return t.name
        if t.kind == 'res':
            return show_t(t.show(), d + 1) if hasattr(t, 'show') else repr(t)
        return getattr(t, 'label', None) or t.kind
    if not isinstance(t, tuple):
        return str(t)
    op = t[0] if t else '()'
    a = t[1:]
    s = lambda x: show_t(x, d + 1)
    if op == 'const':
        return repr(a[0])
    if op == 'param':
        return str(a[-1])
    if op == 'glob':
        return str(a[0])
    if op == 'attr':
        return '%s.%s' % (s(a[0]), a[1])
    if op == 'sub':
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if op == 'idx':
        return 'i'
    if op == 'lin':
        parts = []
        for mono, c in a[0]:
            m = '*'.join(s(x) for x in mono) if mono else ''
            if m == '':
                parts.append(str(c))
            elif c == 1:
                parts.append(m)
            elif c == -1:
                parts.append('-' + m)
            else:
                parts.append('%s*%s' % (c, m))
        return '(' + ' + '.join(parts) + ')'
    if op == 'gt0':
        return '%s > 0' % s(a[0])
    if op == 'thr':
        return '%s >= %s' % (s(a[0]), a[1])
    if op == 'eq0':
        return '%s == 0' % s(a[0])
    if op == 'eq':
        return '%s == %s' % (s(a[0]), s(a[1]))
    if op == 'eqk':
        return '%s %s %s' % (s(a[0]), 'is' if a[1] is NONE_T else '==', s(a[1]))
    if op == 'is':
        return '%s is %s' % (s(a[0]), s(a[1]))
    if op == 'truth':
        return s(a[0])
    if op == 'res':
        return s(a[0])
    if op == 'uniq':
        return s(a[0])
    if op == 'exit':
        return 'exits(%s when %s)' % (s(a[0]), show(a[1], d + 1))
    if op == 'at':
        return '%s@exit' % s(a[2])
    if op == 'fin':
        return '%s@end' % s(a[1])
    if op == 'app':
        return '%s(%s)' % (a[0] if isinstance(a[0], str) else s(a[0]), ', '.join(s(x) for x in a[1]))
    if op == 'tuple':
        return '(%s,)' % ', '.join(s(x) for x in a)
    if op == 'kw':
        return '%s=%s' % (a[0], s(a[1]))
    return '%s(%s)' % (op, ', '.join(s(x) for x in a))


def show(m, d=0):
    if d > 7:
        return '..'
    if m.atom is None:
        return show_t(m.term, d + 1)
    a = show_t(atom_term(m.atom), d + 1)
    if m.hi is TRUE and m.lo is FALSE:
        return a
    if m.hi is FALSE and m.lo is TRUE:
        return 'not(%s)' % a
    if m.lo is FALSE:
        return '%s and %s' % (a, show(m.hi, d + 1))
    if m.hi is TRUE:
        return '(%s or %s)' % (a, show(m.lo, d + 1))
    if m.hi is FALSE:
        return 'not(%s) and %s' % (a, show(m.lo, d + 1))
    return '(%s ? %s : %s)' % (a, show(m.hi, d + 1), show(m.lo, d + 1))
