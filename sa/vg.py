"""Guarded-effect value graphs: structured gated-SSA construction from Python syntax trees."""
import ast
import builtins
import copy
import re
import string
from .mt import (T, MT, Uniq, Term, leaf, node, atom, atom_id, const, TRUE, FALSE, NONE, UNDEF, TRUE_T,
                 FALSE_T, NONE_T, UNDEF_T, ite, AND, OR, NOT, mapn, leaves, restrict, atoms_of,
                 atom_term, show, show_t, subst, occurs, noversion)
from .prog import (never_none, Program, Func, Class, LIST_MUT, PURE_METH, PURE_MODS, PURE_BUILTINS, IGNORED_ROOTS,
                   own_nodes, is_gen, self_names)

MAXLEAF = 24
BUILTINS = frozenset(dir(builtins)) | {'__file__', '__class__'}


def unmt(x):
    if isinstance(x, MT):
        return x
    return x[1] if x[0] == 'mt' else leaf(x)


def repacked(t, unpacked):
    """(x[0], x[1])  is  x  once  a, b = x  went well"""
    if t[0] == 'tuple' and len(t) > 2 and t[1].__class__ is Term and t[1][0] == 'sub':
        x = t[1][1]
        if (x, len(t) - 1) in unpacked and all(
                y[0] == 'sub' and y[1] is x and y[2] is T('const', i) for i, y in enumerate(t[1:])):
            return x
    return t


class Unsupported(Exception):
    pass


class Effect:
    n = 0

    def __init__(self, kind, args, guard, loop, line, mods=(), callee=None, ver=None):
        Effect.n += 1
        self.n = Effect.n
        self.kind = kind
        self.args = args
        self.guard = guard
        self.loop = loop
        self.line = line
        self.mods = frozenset(mods)
        self.callee = callee
        self.ver = ver
        self.reads = frozenset()
        self.rver = frozenset()
        self.exp = None

    def __repr__(self):
        a = ', '.join(show(x) for x in self.args)
        g = '' if self.guard is TRUE else '  WHEN ' + show(self.guard)
        lp = ''
        if self.loop is not None:
            lp = '  IN ' + show_loop(self.loop)
        c = (' ' + self.callee) if self.callee else ''
        return '%s%s(%s)%s%s' % (self.kind, c, a, lp, g)


def show_loop(L):
    s = L.kind2 + ' ' + (show_iter(L) if L.iter is not None else '')
    if L.parent is not None:
        s += ' in ' + show_loop(L.parent)
    return s


def show_iter(L):
    it = L.iter
    return '(' + ' '.join(show(x) if isinstance(x, MT) else str(x) for x in it) + ')'


class Closure(Uniq):
    """An escaping function value with its own graph."""
    def __init__(self, arity):
        Uniq.__init__(self, 'closure')
        self.arity = arity
        self.effects = []
        self.gen = False
        self.node = None
        self.label = 'closure'


class ClassClosure(Uniq):
    def __init__(self):
        Uniq.__init__(self, 'classclosure')
        self.methods = {}
        self.attrs = {}
        self.label = 'local-class'


MIRROR = {'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE', 'GtE': 'LtE'}


class FnVal(Uniq):
    """A function defined inside the analysed function; becomes a Closure when it escapes."""
    def __init__(self, node, frame, selfcls=None):
        Uniq.__init__(self, 'fn')
        self.node = node
        self.frame = frame
        self.closure = None
        self.selfcls = selfcls


class GenVal(Uniq):
    """An un-consumed generator expression / inlined generator call."""
    def __init__(self, node, frame, run):
        Uniq.__init__(self, 'gen')
        self.node = node
        self.frame = frame
        self.run = run        # run(body) : executes, calling body(value) per item


class BoundMethod(Uniq):
    def __init__(self, func, recv):
        Uniq.__init__(self, 'bound')
        self.func = func
        self.recv = recv


class Frame:
    def __init__(self, mod, cls, parent=None, selfval=None, func=None):
        self.env = {}
        self.mod = mod
        self.cls = cls
        self.parent = parent
        self.returns = []       # (guard relative to frame start, value)
        self.rreach = []        # what has happened when each return is reached
        self.loops = []         # LoopCtx stack of this frame
        self.ybody = None       # for inlined generators: function(value)
        self.func = func
        self.selfclass = None   # ClassClosure context
        self.selfname = None
        self.nonlocals = set()


class LoopCtx:
    def __init__(self, L):
        self.L = L
        self.breaks = []      # (guard, env, reach)
        self.conts = []
        self.rets = []        # (guard, value)
        self.rreach = []
        self.raises = []      # (guard, value, line)
        self.outer = TRUE


PURE_STD = {'bisect.bisect_left', 'bisect.bisect_right', 'bisect.bisect', 'copy.copy', 'copy.deepcopy',
            'pickle.loads', 'pickle.dumps', 'os.path.join', 'os.path.exists', 'os.path.basename'}

BINOPS = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'Div': '__truediv__', 'FloorDiv': '__floordiv__',
          'Mod': '__mod__', 'Pow': '__pow__', 'LShift': '__lshift__', 'RShift': '__rshift__', 'BitAnd': '__and__',
          'BitOr': '__or__', 'BitXor': '__xor__', 'MatMult': '__matmul__'}


def assigned_names(nodes):
    out = set()
    st = list(nodes)
    while st:
        n = st.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # walrus inside comprehension is rare; ignore
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        st.extend(ast.iter_child_nodes(n))
    return out


# ---------------------------------------------------------------- arithmetic on leaf terms
def own_continue(stmts):
    for s in stmts:
        if isinstance(s, ast.Continue):
            return True
        if isinstance(s, (ast.For, ast.While)):
            if own_continue(s.orelse):
                return True
            continue
        for f in ('body', 'orelse', 'finalbody', 'handlers'):
            v = getattr(s, f, None)
            if isinstance(v, list) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)) and \
                    own_continue([y for x in v for y in (x.body if isinstance(x, ast.ExceptHandler) else [x])]):
                return True
    return False


def is_num(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def poly(t):
    if t[0] == 'const' and is_num(t[1]):
        return {(): t[1]} if t[1] != 0 else {}
    if t[0] == 'const' and isinstance(t[1], bool):
        return {(): int(t[1])} if t[1] else {}
    if t[0] == 'lin':
        return dict(t[1])
    return {(t,): 1}


def unpoly(p):
    p = {k: v for k, v in p.items() if v != 0}
    if not p:
        return T('const', 0)
    if len(p) == 1:
        (k, v), = p.items()
        if k == ():
            return T('const', v)
        if v == 1 and len(k) == 1:
            return k[0]
    items = tuple(sorted(p.items(), key=lambda kv: (len(kv[0]), tuple(id(x) for x in kv[0]))))
    return T('lin', items)


def padd(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
    return {k: v for k, v in r.items() if v != 0}


def pmul(a, b):
    r = {}
    for k1, v1 in a.items():
        for k2, v2 in b.items():
            k = tuple(sorted(k1 + k2, key=id))
            r[k] = r.get(k, 0) + v1 * v2
    return {k: v for k, v in r.items() if v != 0}


def is_seqlike(t):
    if t[0] == 'const':
        return isinstance(t[1], (str, bytes, tuple))
    if t[0] in ('tuple', 'concat', 'rep', 'fmt', 'slice_of'):
        return True
    if t[0] == 'uniq' and t[1].kind in ('newlist',):
        return True
    if t[0] == 'app' and t[1] in ('str', 'list', 'tuple', 'sorted', 'chr', '.join', 'repr'):
        return True
    return False


def is_strlike(t):
    return (t[0] == 'const' and isinstance(t[1], str)) or t[0] == 'fmt' or \
        (t[0] == 'app' and t[1] in ('str', 'chr', '.join', 'repr', '.lower', '.upper', '.format')) or \
        (t[0] == 'concat' and any(is_strlike(x) for x in t[1:]))


def numeric(t, depth=0):
    """is the term certainly a plain number (never a Payload)?"""
    if depth > 8:
        return False
    if t[0] == 'const':
        return is_num(t[1]) or isinstance(t[1], bool)
    if t[0] == 'lin':
        return all(numeric(x, depth + 1) for k, _ in t[1] for x in k)
    if t[0] == 'idx':
        return True
    if t[0] == 'app' and t[1] in ('len', 'abs', 'int', 'bisect.bisect_left', 'bisect.bisect_right', 'ord', 'id',
                                  'bisect.bisect', 'bisect.bisect_left', 'round', 'float'):
        return True
    if t[0] == 'uniq' and t[1].kind == 'mu':
        return all(numeric(x, depth + 1) for _, x in leaves(t[1].init))
    if t[0] in ('fdiv',):
        return numeric(t[1], depth + 1) and numeric(t[2], depth + 1)
    if t[0] == 'fin':
        return numeric(t[2], depth + 1)
    if t[0] == 'at':
        return all(numeric(x, depth + 1) for _, x in leaves(t[3]))
    return False


def nonnull(t):
    if t[0] == 'const':
        return t[1] is not None
    if t[0] in ('lin', 'tuple', 'concat', 'rep', 'fmt', 'idx', 'fdiv'):
        return True
    if t[0] == 'app' and t[1] in ('len', 'str', 'list', 'tuple', 'sorted', 'int', 'abs', 'range', 'zip', 'enumerate',
                                  'min', 'max', 'float', 'ctor', 'type'):
        return True
    if t[0] == 'uniq' and t[1].kind in ('newlist', 'newdict', 'newset', 'fn', 'gen', 'closure', 'alloc', 'bound'):
        return True
    if t[0] == 'uniq' and t[1].kind == 'res' and t[1].effect.callee == 'next':
        return True         # what is iterated here are (coordinate, payload) pairs, never None
    return False


# ---------------------------------------------------------------- comparisons
def flatten_fmt(parts):
    out = []
    for p in parts:
        if p[0] == 'fmt':
            out.extend(p[1:])
        elif p[0] == 'app' and p[1] == 'str' and len(p[2]) == 1 and len(p) == 4 and p[2][0].atom is None:
            out.append(p[2][0].term)
        else:
            out.append(p)
    res = []
    for p in out:
        if p[0] == 'const' and isinstance(p[1], str):
            if p[1] == '':
                continue
            if res and res[-1][0] == 'const' and isinstance(res[-1][1], str):
                res[-1] = T('const', res[-1][1] + p[1])
                continue
        res.append(p)
    return res


def mkfmt(parts):
    ps = flatten_fmt(parts)
    if not ps:
        return T('const', '')
    if len(ps) == 1 and (is_strlike(ps[0])):
        return ps[0]
    return T('fmt', *ps)


_eqk = {}
_isi = {}


def eqk(x, c):
    """x equals the constant c: constants of one value exclude each other, so each test stands under the earlier ones"""
    d = _eqk.setdefault(x, [])
    for i, (k, m) in enumerate(d):
        if k is c:
            return m
    m = atom(T('eqk', x, c, *[k for k, _ in d]))
    for k, y in d:
        m = AND(NOT(y), m)
    d.append((c, m))
    return m


_thr = {}


def integral(t, depth=0):
    """is the term certainly an integer?"""
    if depth > 6:
        return False
    if t[0] == 'const':
        return isinstance(t[1], int)
    if t[0] == 'lin':
        return all(isinstance(c, int) for _, c in t[1]) and all(integral(x, depth + 1) for k, _ in t[1] for x in k)
    if t[0] == 'idx':
        return True
    if t[0] == 'app' and t[1] in ('len', 'int', 'bisect.bisect_left', 'bisect.bisect_right', 'ord', 'bisect.bisect'):
        return True
    if t[0] == 'uniq' and t[1].kind == 'mu':
        return all(integral(x, depth + 1) for _, x in leaves(t[1].init))
    if t[0] == 'fdiv':
        return integral(t[1], depth + 1) and integral(t[2], depth + 1)
    if t[0] == 'fin':
        return integral(t[2], depth + 1)
    return False


def integral_poly(d):
    """a difference of quantities one of which counts things: all of them are integers"""
    return all(isinstance(c, int) for c in d.values()) and any(integral(x) for k in d for x in k)


def thr(q, k):
    """q >= k for an integer q: thresholds on one quantity imply each other"""
    d = _thr.setdefault(q, {})
    if k in d:
        return d[k]
    if k < 0 and q[0] == 'app' and q[1] == 'len':
        return TRUE
    below = max((x for x in d if x < k), default=None)
    above = min((x for x in d if x > k), default=None)
    m = atom(T('thr', q, k, below, above))
    if below is not None:
        m = AND(d[below], m)
    if above is not None:
        m = OR(d[above], m)
    d[k] = m
    return m


def cmp3(a, b):
    """Return (lt, eq, gt) as MT booleans for leaf terms a, b."""
    r = cmp3_(a, b)
    if r[1].atom is not None and a[0] != 'tuple' and b[0] != 'tuple':
        x = modulus(padd(poly(a), poly(b), -1))
        if x is not None:
            # 0 % n is 0
            z = cmp3_(x, T('const', 0))[1]
            return (AND(r[0], NOT(z)), OR(z, r[1]), AND(r[2], NOT(z)))
    return r


def modulus(d):
    """x when the polynomial is x % n or its negative"""
    for k in d:
        for f in k:
            if f[0] == 'fdiv' and len(d) <= 6:
                m = padd(poly(f[1]), pmul(poly(f[2]), {(f,): 1}), -1)
                if m == d or m == {q: -v for q, v in d.items()}:
                    return f[1]
    return None


def cmp3_(a, b):
    if a[0] == 'const' and b[0] == 'const':
        x, y = a[1], b[1]
        try:
            return (const(bool(x < y)), const(bool(x == y)), const(bool(x > y)))
        except TypeError:
            e = x == y
            return (FALSE, const(bool(e)), FALSE)
    if a is b:
        return (FALSE, TRUE, FALSE)
    nonord = False
    for t in (a, b):
        if t[0] == 'const' and not is_num(t[1]):
            nonord = True
        if t[0] in ('tuple', 'fmt', 'concat', 'rep') or is_seqlike(t):
            nonord = True
    if nonord:
        if a[0] == 'tuple' and b[0] == 'tuple' and len(a) == len(b):
            e = TRUE
            for x, y in zip(a[1:], b[1:]):
                e = AND(e, cmp3(x, y)[1])
            return (atom(T('ltx', a, b)), e, atom(T('ltx', b, a)))
        # cheap constant folding between a string constant and something known non-null
        if (a[0] == 'const' and a[1] is None and nonnull(b)) or (b[0] == 'const' and b[1] is None and nonnull(a)):
            return (FALSE, FALSE, FALSE)
        if a[0] == 'const' or b[0] == 'const':
            e = eqk(b, a) if a[0] == 'const' else eqk(a, b)
        else:
            e = atom(T('eq', *sorted((a, b), key=id)))
        return (atom(T('ltx', a, b)), e, atom(T('ltx', b, a)))
    d = padd(poly(a), poly(b), -1)        # a - b
    keys = list(d)
    if not keys:
        return (FALSE, TRUE, FALSE)
    if keys == [()]:
        v = d[()]
        return (const(v < 0), FALSE, const(v > 0))
    dt = unpoly(d)
    nt = unpoly({k: -v for k, v in d.items()})
    # lengths
    if dt[0] == 'app' and dt[1] == 'len':
        tr = truth(dt[2][0])
        return (FALSE, NOT(tr), tr)
    if nt[0] == 'app' and nt[1] == 'len':
        tr = truth(nt[2][0])
        return (tr, NOT(tr), FALSE)
    if integral_poly(d):
        c = d.pop((), 0)
        q = unpoly(d)
        nq = unpoly({k: -v for k, v in d.items()})
        for x in (q, nq):
            if x[0] == 'app' and x[1] == 'len' and x not in _thr:
                _thr[x] = {0: TRUE, 1: truth(x[2][0])}
        if nq in _thr and q not in _thr:
            gt, ge = NOT(thr(nq, c)), NOT(thr(nq, c + 1))
        else:
            gt, ge = thr(q, 1 - c), thr(q, -c)
        return (NOT(ge), AND(ge, NOT(gt)), gt)
    from .mt import _atoms
    neg = id(T('gt0', nt)) in _atoms
    if neg:
        L = atom(T('gt0', nt))
        E = atom(T('eq0', nt))
        eq = AND(NOT(L), E)
        return (L, eq, AND(NOT(L), NOT(E)))
    L = atom(T('gt0', dt))
    E = atom(T('eq0', dt))
    eq = AND(NOT(L), E)
    return (AND(NOT(L), NOT(E)), eq, L)


BUILDER = [None]
PARALLEL = [True]


def truth_t(t):
    if t[0] == 'attr' and t[2] == 'payloads' and PARALLEL[0]:
        t = T('attr', t[1], 'coords', t[3])
    if t[0] == 'const':
        return const(bool(t[1]))
    if t[0] == 'tuple':
        return const(len(t) > 1)
    if t[0] == 'mt':
        return truth(t[1])
    if t[0] == 'lin' or (t[0] == 'fdiv'):
        return NOT(cmp3(t, T('const', 0))[1])
    if t[0] == 'app' and t[1] == 'len':
        return truth(t[2][0])
    if t[0] == 'app' and t[1] == 'bool':
        return truth_t(t[2][0])
    if t[0] == 'uniq' and t[1].kind in ('closure', 'fn', 'bound', 'alloc'):
        return TRUE
    if t[0] == 'idx':
        return NOT(cmp3(t, T('const', 0))[1])
    if t[0] == 'uniq' and t[1].kind == 'newlist' and BUILDER[0] is not None:
        q = BUILDER[0].mapped_from(t[1])
        if q is not None and q.atom is None and q.term is not t:
            return truth_t(q.term)
        n = BUILDER[0].length(t)
        if n is not None:
            return cmp3(n, T('const', 0))[2]
    if t[0] == 'slice_of' and len(t) == 4:
        lo, hi, st = t[2][1:]
        if hi is NONE and st is NONE and lo.atom is None and (lo.term is NONE_T or lo.term[0] == 'const' and
                                                              isinstance(lo.term[1], int) and lo.term[1] >= 0):
            # x[k:] has elements when x has more than k
            b = t[1]
            if b[0] == 'attr' and b[2] == 'payloads' and PARALLEL[0]:
                b = T('attr', b[1], 'coords', b[3])
            n = T('app', 'len', (leaf(b),), t[3])
            return cmp3(n, T('const', 0 if lo.term is NONE_T else lo.term[1]))[2]
    return atom(T('truth', t))


def truth(m):
    return mapn(truth_t, m)


def local_test(n):
    """a condition over local names and constants only"""
    return all(isinstance(x, (ast.Name, ast.Constant, ast.Compare, ast.BoolOp, ast.UnaryOp, ast.boolop, ast.unaryop,
                              ast.cmpop, ast.expr_context)) for x in ast.walk(n))


def own_break(stmts):
    """a break that leaves the loop these statements are the body of"""
    st = list(stmts)
    while st:
        n = st.pop()
        if isinstance(n, ast.Break):
            return True
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        if isinstance(n, (ast.While, ast.For)):
            st.extend(n.orelse)
            continue
        st.extend(ast.iter_child_nodes(n))
    return False


def fusible(a, b):
    if a.orelse or b.orelse or not local_test(a.test) or not local_test(b.test) or own_break(a.body):
        return False
    names = {x.id for x in ast.walk(a.test) if isinstance(x, ast.Name)}
    return bool(names) and not (names & assigned_names(b.body))


class Builder:
    """Builds the value graph of one function."""

    def __init__(self, prog, known, inline_set=frozenset(), other=None):
        self.prog = prog
        self.known = known            # set of quals considered primitives
        self.inline_set = inline_set  # known quals to inline anyway
        self.effects = []
        self.made = {}
        self.lctx = []
        self.rstop = 0
        self.g = TRUE
        self.outer = TRUE
        self.reach = {}
        self.loops = []               # enclosing loops (Uniq) across frames
        self.unpacked = set()
        self.undefs = []
        self.stack = []               # inlining stack of quals / node ids
        self.flags = []
        self.calls_unknown = []
        self.counting = {}            # id(ast node) -> ('for', var) annotations from pass 1
        self.invariant = {}
        self.induct = {}
        self.accum = {}
        self.derived = {}
        self.lagged = {}
        self.given = {}
        self.consumers = []         # frames consuming the generators being run inline
        self.keep = []
        self.fusions = {}
        self.as_gen = {}
        self.keep = []
        self.depth = 0
        self.base_ver = frozenset()
        self.nsteps = 0
        self.inlined = set()
        self.handed = {}
        self.resolved = set()         # functions some call certainly refers to
        self.shape_only = False

    # ------------------------------------------------------------ entry
    def build(self, func, like=None):
        """like: the reference function whose parameter names and count this one is read with"""
        fr = Frame(func.mod, func.cls, func=func)
        self.func = func
        self.root = func
        self.root_mod = func.mod.path
        PARALLEL[0] = 'codec' not in self.root_mod
        BUILDER[0] = self
        node = func.node
        allp = func.params + func.kwonly
        names = set(allp)
        for i, p in enumerate(func.params):
            fr.env[p] = leaf(T('param', i, p))
        for p in func.kwonly:
            fr.env[p] = leaf(T('param', 'kw:' + p, p))
        if like is not None:
            for i, p in enumerate(func.params):
                if i < len(like.params):
                    fr.env[p] = leaf(T('param', i, like.params[i]))
                elif p in func.defaults and not like.vararg:
                    fr.env[p] = self.ev(Frame(func.mod, func.cls, func=func), func.defaults[p])
            for p in func.kwonly:
                if p in func.defaults and p not in like.kwonly and p not in like.params and not like.kwarg:
                    fr.env[p] = self.ev(Frame(func.mod, func.cls, func=func), func.defaults[p])
        if func.vararg:
            fr.env[func.vararg] = leaf(T('param', '*', 'args'))
        if func.kwarg:
            fr.env[func.kwarg] = leaf(T('param', '**', 'kwargs'))
        fr.selfname = func.params[0] if func.params and func.kind in ('method', 'class', 'prop') else None
        self.stack.append(func.qual)
        self.run_body(fr, node.body)
        self.finish_returns(fr, is_gen(node))
        self.stack.pop()
        self.close()
        return self

    def unfinished(self):
        """nobody sees an object whose construction failed"""
        rs = [e for e in self.effects if e.kind == 'raise' and e.loop is None]
        for e in self.effects:
            if e.kind not in ('setattr', 'setitem', 'm') or e.loop is not None or not e.args or e.args[0].atom is not None:
                continue
            t = e.args[0].term
            while t[0] in ('attr', 'sub'):
                t = t[1]
            if t[0] == 'param' and t[1] == 0:
                for r in rs:
                    if r.n > e.n:
                        e.guard = AND(e.guard, NOT(r.guard))

    def finish_returns(self, fr, gen):
        for g, v, line in fr.returns:
            if gen:
                if v is not NONE:
                    pass
                continue
            self.effects.append(Effect('return', [self.escape(v)], g, None, line))
        if not gen and self.g is not FALSE:
            self.effects.append(Effect('return', [NONE], self.g, None, getattr(self.func.node, 'lineno', 0)))

    def close(self):
        if self.func.name == '__init__':
            self.unfinished()
        self.effects = self.prune(self.effects)

    # ------------------------------------------------------------ places
    def place_eq(self, x, y, region):
        """do two place terms name one place, as far as stores into `region` do not come between them?"""
        while x is not y:
            if x[0] != y[0]:
                return False
            if x[0] == 'attr' and x[2] == y[2]:
                if x[3] != y[3] and 'a:' + x[2] != region:
                    return False
            elif x[0] == 'sub' and x[2] is y[2]:
                if x[3] != y[3] and self.region_t(x) != region:
                    return False
            else:
                return False
            x, y = x[1], y[1]
        return True

    def inside(self, t, base, region):
        """is t a place somewhere inside the container `base`?"""
        while t[0] == 'sub':
            t = t[1]
            if self.place_eq(t, base, region):
                return True
        return False

    def plain(self, v):
        def one(t, d=0):
            if t[0] == 'tuple' and d < 2:
                return all(one(x, d + 1) for x in t[1:])
            return t[0] in ('const', 'lin', 'fmt') or numeric(t) or is_strlike(t)
        return all(one(t) for _, t in leaves(v))

    def stores(self, region):
        """stores that may have made what `region` holds, latest first; None when something else may have"""
        if self.reach.get('*'):
            return None
        r = self.reach.get(region)
        if not r or len(r) > 12:
            return None
        cur = self.loops[-1] if self.loops else None
        out = []
        for e in sorted(r, key=lambda e: -e.n):
            if e.loop is not cur or not e.args:
                out.append(None)
                break
            out.append(e)
        return out

    def forward(self, bt, kt, old):
        """the value last stored at bt[kt] on the ways that lead here"""
        region = self.region_t(bt)
        es = self.stores(region)
        if not es or es[0] is None:
            return None
        G = self.full_guard()
        parts = []
        for e in es:
            if e is None:
                break
            if AND(e.guard, G) is FALSE:
                continue
            b = e.args[0]
            if b.atom is not None:
                break
            if e.kind == 'setitem':
                k = e.args[1]
                if k.atom is not None:
                    k = restrict(k, G)
                if self.place_eq(b.term, bt, region):
                    if k.atom is None and k.term is kt:
                        if not self.plain(e.args[2]):
                            break
                        parts.append((e.guard, e.args[2], e))
                        G = AND(G, NOT(e.guard))
                        if G is FALSE:
                            break
                        continue
                    if k.atom is None and k.term[0] == 'const' and kt[0] == 'const' and k.term[1] != kt[1]:
                        continue
                    break
            if e.kind in ('setitem', 'm') and self.inside(b.term, bt, region):
                continue
            break
        if not parts:
            return None
        r = leaf(T(*old[:3], old[3] - {e for _, _, e in parts}))
        for g, v, _ in reversed(parts):
            r = ite(g, v, r)
        return self.under(r)

    def forward_attr(self, t, name, old):
        es = self.stores('a:' + name)
        if not es or es[0] is None:
            return None
        G = self.full_guard()
        parts = []
        for e in es:
            if e is None:
                break
            if AND(e.guard, G) is FALSE:
                continue
            fw = getattr(e, 'fwd', None)
            if fw is None or fw[0].atom is not None or fw[0].term is not t:
                break
            parts.append((e.guard, fw[2], e))
            G = AND(G, NOT(e.guard))
            if G is FALSE:
                break
        if G is not FALSE or any(self.carried_mod('a:' + name, e) for _, _, e in parts):
            # only what is stored last on some of the ways
            for i, (_, v, _) in enumerate(parts):
                if not self.plain(v):
                    del parts[i:]
                    break
        if not parts:
            return None
        r = leaf(T(*old[:3], old[3] - {e for _, _, e in parts}))
        for g, v, _ in reversed(parts):
            r = ite(g, v, r)
        return self.under(r)

    def longer(self, t):
        """by how much appends since the start of the function (or this iteration) made the list at t longer"""
        region = self.region_t(t)
        es = self.stores(region)
        if not es or es[0] is None:
            return None, None
        G = self.full_guard()
        n = const(0)
        some = set()
        for e in es:
            if e is None:
                return None, None
            if AND(e.guard, G) is FALSE:
                continue
            b = e.args[0]
            if b.atom is not None:
                return None, None
            if e.kind == 'm' and e.callee == 'append' and self.place_eq(b.term, t, region):
                n = ite(e.guard, mapn(lambda x: leaf(unpoly(padd(poly(x), {(): 1}))), n), n)
                some.add(e)
            elif e.kind in ('m', 'setitem') and self.inside(b.term, t, region) or \
                    e.kind == 'setitem' and self.place_eq(b.term, t, region) and t[0] == 'attr' and t[2] in self.prog.list_attrs:
                continue
            else:
                return None, None
        return (self.under(n), some) if some else (None, None)

    def reads_of(self, x):
        """read terms (with the effects they may see) anywhere in x"""
        memo = self.__dict__.setdefault('_reads', {})
        k = id(x)
        r = memo.get(k)
        if r is not None:
            return r[0]
        out = set()
        memo[k] = (out, x)
        if isinstance(x, MT):
            if x.atom is None:
                out |= self.reads_of(x.term)
            else:
                out |= self.reads_of(atom_term(x.atom)) | self.reads_of(x.hi) | self.reads_of(x.lo)
        elif isinstance(x, tuple):
            if isinstance(x, Term) and any(isinstance(y, frozenset) and y for y in x):
                out.add(x)
            for y in x:
                if isinstance(y, (MT, tuple)):
                    out |= self.reads_of(y)
        return out

    def may_see(self, e, t):
        """may the read t look at what the store e wrote?"""
        v = [y for y in t if isinstance(y, frozenset)][-1]
        if e not in v:
            return False
        if e.kind == 'setattr':
            return t[0] not in ('attr',) or t[2] == e.args[1].term[1]
        if t[0] == 'attr':
            return False
        if t[0] in ('sub', 'in') or t[0] == 'app' and t[1] == 'len' and t[2][0].atom is None:
            b = t[1] if t[0] == 'sub' else t[2] if t[0] == 'in' else t[2][0].term
            region = self.region_t(b)
            if isinstance(b, Term):
                x = e.args[0].term
                if self.inside(x, b, region):
                    return False
                if t[0] == 'sub' and self.place_eq(x, b, region) and t[2][0] == 'const' and e.args[1].atom is None and \
                        e.args[1].term[0] == 'const' and e.args[1].term[1] != t[2][1]:
                    return False
        return True

    def prune(self, effects):
        """without the stores that are overwritten before anything can see them"""
        out = []
        for y in effects:
            if y.kind in ('setattr', 'setitem') and len(y.args) == 3 and y.args[0].atom is None and \
                    not getattr(y, 'tried', False) and y.guard is not FALSE:
                region = 'a:' + y.args[1].term[1] if y.kind == 'setattr' else self.region_t(y.args[0].term)
                after = [y]
                for i in range(len(out) - 1, max(-1, len(out) - 13), -1):
                    x = out[i]
                    if x.loop is not y.loop or x.kind not in ('setattr', 'setitem', 'm') or getattr(x, 'tried', False) or \
                            x.args[0].atom is not None:
                        break
                    if x.kind == y.kind and x.args[1] is y.args[1] and x.guard is not FALSE and \
                            self.place_eq(x.args[0].term, y.args[0].term, region):
                        if any(self.may_see(x, t) for z in after for a in list(z.args) + [z.guard] for t in self.reads_of(a)):
                            break
                        x.guard = AND(x.guard, NOT(y.guard))
                        x.exp = None
                        if x.guard is FALSE:
                            u = x.args[0].term
                            if u[0] == 'uniq' and x in u[1].__dict__.get('touches', ()):
                                u[1].touches.remove(x)
                    after.append(x)
            out.append(y)
        return [e for e in out if e.guard is not FALSE or e.kind not in ('setattr', 'setitem')]

    # ------------------------------------------------------------ effects and versions
    def ver(self, regions):
        s = set()
        for r in regions:
            s |= self.reach.get(r, frozenset())
        s |= self.reach.get('*', frozenset())
        for L in self.loops:
            for r in regions:
                s.add(('c', L, r))
            s.add(('c', L, '*'))
        return frozenset(s) | self.base_ver

    def emit(self, kind, args, mods=(), callee=None, line=0, reads=()):
        v = self.ver(list(mods)) if mods else frozenset()
        if '*' in mods or kind in ('yield', 'raise'):
            v = v  # ordering of clobbers against every region is left to the guards
        if self.made and self.loops and kind in ('m', 'setitem', 'setattr', 'yield'):
            args = [self.shared(a) for a in args]
        fg = AND(self.outer, self.g)
        if fg is not TRUE:
            args = [restrict(a, fg) if a.atom is not None else a for a in args]
            for L in self.loops:
                some = L.__dict__.get('some')
                if some is not None:
                    fg = restrict(fg, some)     # that there is something to iterate over goes without saying
        e = Effect(kind, args, fg, self.loops[-1] if self.loops else None, line, mods, callee, v)
        e.reads = frozenset(reads)
        e.rver = self.ver(reads) if reads else frozenset()
        if args and (kind not in ('call', 'return', 'raise', 'yield') or kind == 'call' and callee and callee.startswith('.')):
            for _, t in leaves(args[0]):
                if t[0] == 'uniq' and t[1].kind in ('newlist', 'newdict', 'newset'):
                    t[1].__dict__.setdefault('touches', []).append(e)
        self.effects.append(e)
        for r in mods:
            self.reach[r] = self.reach.get(r, frozenset()) | {e}
        for L in self.loops:
            for r in mods:
                L.mods.setdefault(r, set()).add(e)
        return e

    def shared(self, m):
        """mark an object made before the loop that stores it again in every iteration"""
        def one(t):
            at = self.made.get(t)
            if at is not None and len(at) < len(self.loops) and tuple(self.loops[:len(at)]) == at:
                return leaf(T('app', 'shared', (leaf(t),), frozenset()))
            return leaf(t)
        if any(t in self.made for _, t in leaves(m)):
            return mapn(one, m)
        return m

    def region_t(self, t, d=0):
        while True:
            if t[0] == 'attr':
                return 'a:' + t[2]
            if t[0] == 'sub':
                t = t[1]
                continue
            if t[0] == 'uniq' and t[1].kind in ('newlist', 'newdict', 'newset'):
                return 'l:%d' % t[1].n
            if t[0] == 'uniq' and t[1].kind == 'mu' and d < 5:
                for _, x in leaves(t[1].init):
                    return self.region_t(x, d + 1)
            if t[0] == 'param':
                return 'v:%s' % (t[1],)
            return 'v:%d' % id(t)

    def region(self, m):
        return {self.region_t(t) for _, t in leaves(m)}

    # ------------------------------------------------------------ statements
    asis = False
    turned = False

    def run_body(self, fr, stmts):
        for s in self.filled(self.summed(fr, self.primed(self.fused(stmts)))):
            if self.g is FALSE:
                return
            self.stmt(fr, s)

    def summed(self, fr, stmts):
        """a loop that only adds to X.a adds up on its own, and then to X.a"""
        if self.asis or '/model/' not in self.root_mod or not any(isinstance(s, (ast.For, ast.While)) for s in stmts):
            return stmts
        k = ('summed', id(stmts))
        r = self.fusions.get(k)
        if r is None:
            r = []
            for s in stmts:
                ts = self.only_summed(fr, s) if isinstance(s, (ast.For, ast.While)) else []
                if not ts:
                    r.append(s)
                    continue
                new = copy.deepcopy(s)
                names = {t: '^sum_%s_%s' % t for t in ts}

                class Sub(ast.NodeTransformer):
                    def visit_AugAssign(self, n):
                        t = n.target
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and (t.value.id, t.attr) in names:
                            n.target = ast.copy_location(ast.Name(id=names[t.value.id, t.attr], ctx=ast.Store()), t)
                        return n
                new = Sub().visit(new)
                at = lambda n: ast.fix_missing_locations(ast.copy_location(n, s))
                for t in ts:
                    r.append(at(ast.Assign(targets=[ast.Name(id=names[t], ctx=ast.Store())], value=ast.Constant(value=0))))
                r.append(new)
                for t in ts:
                    r.append(at(ast.AugAssign(target=ast.Attribute(value=ast.Name(id=t[0], ctx=ast.Load()), attr=t[1],
                                                                   ctx=ast.Store()),
                                              op=ast.Add(), value=ast.Name(id=names[t], ctx=ast.Load()))))
            self.fusions[k] = r
            self.keep.append(stmts)
        if len(r) != len(stmts):
            self.turned = True
        return r

    def only_summed(self, fr, s):
        inside = [x for b in s.body + s.orelse + ([s.test] if isinstance(s, ast.While) else []) for x in ast.walk(b)]
        if any(isinstance(x, (ast.Return, ast.Raise, ast.Yield, ast.YieldFrom, ast.Assert, ast.FunctionDef, ast.Lambda, ast.Try))
               for x in inside):
            return []
        adds = {}
        for x in inside:
            if isinstance(x, ast.AugAssign) and isinstance(x.op, ast.Add) and isinstance(x.target, ast.Attribute) and \
                    isinstance(x.target.value, ast.Name):
                t = (x.target.value.id, x.target.attr)
                adds[t] = adds.get(t, 0) + 1
        out = []
        stored = {x.id for x in inside if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load)}
        called = {x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id if isinstance(x.func, ast.Name) else '?'
                  for x in inside if isinstance(x, ast.Call)}
        for (b, a), n in sorted(adds.items()):
            if b in stored or sum(isinstance(x, ast.Attribute) and x.attr == a for x in inside) != n:
                continue
            reg = 'a:' + a
            if any(reg in f.mods or reg in f.reads or '*' in f.mods for c in called for f in self.prog.by_name.get(c, [])):
                continue
            if any(isinstance(d, (ast.FunctionDef, ast.Lambda)) and d is not fr.func.node and
                   any(isinstance(y, ast.Attribute) and y.attr == a for y in ast.walk(d)) for d in ast.walk(fr.func.node)):
                continue
            out.append((b, a))
        return out

    def filled(self, stmts):
        """X.a = []; for ..: X.a.append(..)   fills a list of its own, which is then stored"""
        if self.asis or len(stmts) < 2 or not any(isinstance(s, ast.For) for s in stmts):
            return stmts
        k = ('filled', id(stmts))
        r = self.fusions.get(k)
        if r is None:
            r = list(stmts)
            i = 0
            while i < len(r):
                j = self.filling(r, i)
                if j is None:
                    i += 1
                    continue
                t, v = r[i].targets[0], r[i].value
                nm = '^fill_%s_%s' % (t.value.id, t.attr)
                new = copy.deepcopy(r[j])

                class Sub(ast.NodeTransformer):
                    def visit_Attribute(self, n):
                        self.generic_visit(n)
                        if n.attr == t.attr:
                            return ast.copy_location(ast.Name(id=nm, ctx=ast.Load()), n)
                        return n
                new = Sub().visit(new)
                at = lambda n, s: ast.fix_missing_locations(ast.copy_location(n, s))
                r[i] = at(ast.Assign(targets=[ast.Name(id=nm, ctx=ast.Store())], value=v), r[i])
                st = at(ast.Assign(targets=[copy.deepcopy(t)], value=ast.Name(id=nm, ctx=ast.Load())), r[j])
                r[j] = new
                r.insert(j + 1, st)
            self.fusions[k] = r if len(r) != len(stmts) else stmts
            self.keep.append(stmts)
        r = self.fusions[k]
        if r is not stmts:
            self.turned = True
        return r

    def filling(self, ss, i):
        s = ss[i]
        if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Attribute) and
                isinstance(s.targets[0].value, ast.Name)):
            return None
        v = s.value
        if not (isinstance(v, (ast.List, ast.Dict)) or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and
                v.func.id in ('list', 'dict', 'set') and not v.args or
                isinstance(v, ast.BinOp) and isinstance(v.op, ast.Mult) and isinstance(v.left, ast.List)):
            return None
        x, a = s.targets[0].value.id, s.targets[0].attr
        for j in range(i + 1, len(ss)):
            t = ss[j]
            ns = list(ast.walk(t))
            hit = [n for n in ns if isinstance(n, ast.Attribute) and n.attr == a]
            owned = {id(n.value) for n in ns if isinstance(n, ast.Attribute)}
            if any(isinstance(n, ast.Name) and n.id == x and (id(n) not in owned or not isinstance(n.ctx, ast.Load)) for n in ns) or \
                    any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and
                        n.func.value.id == x for n in ns):
                return None
            if not hit:
                if isinstance(t, ast.Assign):
                    continue
                return None
            if not isinstance(t, ast.For) or t.orelse or \
                    any(isinstance(n, (ast.Return, ast.Raise, ast.Yield, ast.YieldFrom, ast.Assert, ast.FunctionDef, ast.Lambda,
                                       ast.Try, ast.With)) for n in ns):
                return None
            ok = set()
            for n in ns:
                if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and \
                        n.value.func.attr in ('append', 'extend', 'add', 'update'):
                    ok.add(id(n.value.func.value))
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                    ok.add(id(n.value))
            if all(id(n) in ok and isinstance(n.value, ast.Name) and n.value.id == x for n in hit):
                return j
            return None
        return None

    def primed(self, stmts):
        """S; while T: P; S   is   while True: S; if not T: break; P   (S tells what T asks)"""
        if self.asis or len(stmts) < 2 or not any(isinstance(s, ast.While) for s in stmts):
            return stmts
        k = ('primed', id(stmts))
        r = self.fusions.get(k)
        if r is None:
            r = []
            for s in stmts:
                n = 0
                if isinstance(s, ast.While) and not s.orelse and not own_continue(s.body):
                    while n < len(r) and n < len(s.body) and isinstance(s.body[-1 - n], (ast.Assign, ast.Expr)) and \
                            ast.dump(r[-1 - n]) == ast.dump(s.body[-1 - n]):
                        n += 1
                if n and n < len(s.body) and any(isinstance(x, ast.Call) for y in r[-n:] for x in ast.walk(y)) and \
                        assigned_names(r[-n:]) & {x.id for x in ast.walk(s.test) if isinstance(x, ast.Name)}:
                    stop = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=s.test), body=[ast.Break()], orelse=[])
                    w = ast.While(test=ast.Constant(value=True), body=r[-n:] + [stop] + s.body[:-n], orelse=[])
                    for x in (w, w.test, stop, stop.test, stop.body[0]):
                        ast.copy_location(x, s)
                    del r[-n:]
                    r.append(w)
                else:
                    r.append(s)
            self.fusions[k] = r
            self.keep.append(stmts)
        if len(r) != len(stmts):
            self.turned = True
        return r

    def fused(self, stmts):
        """while X: P; while Y: Q   is   while X or Y: (P if X else Q)   when Q leaves X alone"""
        if sum(isinstance(s, ast.While) for s in stmts) < 2:
            return stmts
        k = id(stmts)
        r = self.fusions.get(k)
        if r is None:
            r = []
            for s in stmts:
                if r and isinstance(s, ast.While) and isinstance(r[-1], ast.While) and fusible(r[-1], s):
                    a = r[-1]
                    w = ast.While(test=ast.BoolOp(op=ast.Or(), values=[a.test, s.test]),
                                  body=[ast.If(test=a.test, body=a.body, orelse=s.body)], orelse=[])
                    for x in (w, w.test, w.body[0]):
                        ast.copy_location(x, a)
                    r[-1] = w
                else:
                    r.append(s)
            self.fusions[k] = r
            self.keep.append(stmts)
        return r

    def stmt(self, fr, s):
        self.nsteps += 1
        if self.nsteps > 60000:
            raise Unsupported('too large')
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement ' + type(s).__name__)
        m(fr, s)

    def s_Expr(self, fr, s):
        if isinstance(s.value, ast.Constant):
            return
        if self.is_exit(fr, s.value):
            for a in s.value.args:
                self.ev(fr, a)
            self.do_raise(leaf(T('glob', 'SystemExit', 'builtin')), s.lineno)
            self.g = FALSE
            return
        self.ev(fr, s.value)

    def s_Pass(self, fr, s):
        pass

    def s_Import(self, fr, s):
        for a in s.names:
            fr.env[(a.asname or a.name).split('.')[0]] = leaf(T('glob', a.name, 'mod'))

    def s_ImportFrom(self, fr, s):
        for a in s.names:
            fr.env[a.asname or a.name] = self.symbol(a.name, s.module or '')

    def s_Global(self, fr, s):
        pass

    def s_Nonlocal(self, fr, s):
        fr.nonlocals |= set(s.names)

    def s_FunctionDef(self, fr, s):
        fv = FnVal(s, fr)
        fr.env[s.name] = leaf(T('uniq', fv))

    def s_ClassDef(self, fr, s):
        cc = ClassClosure()
        cf = Frame(fr.mod, None, parent=fr, func=fr.func)
        cf.selfclass = cc
        for b in s.body:
            if isinstance(b, ast.FunctionDef):
                deco = {d.id for d in b.decorator_list if isinstance(d, ast.Name)}
                fv = FnVal(b, fr, selfcls=None if 'staticmethod' in deco else cc)
                fv.static = 'staticmethod' in deco
                cc.methods[b.name] = fv
            elif isinstance(b, (ast.Assign, ast.AnnAssign)):
                val = b.value
                tg = b.targets if isinstance(b, ast.Assign) else [b.target]
                v = self.ev(cf, val)
                v = self.force(v)
                for t in tg:
                    if isinstance(t, ast.Name):
                        cc.attrs[t.id] = v
                        cf.env[t.id] = v
                    else:
                        raise Unsupported('class-level target')
            elif isinstance(b, (ast.Pass, ast.Expr)):
                pass
            else:
                raise Unsupported('class-level ' + type(b).__name__)
        cc.attrs_written = set()
        for b in s.body:
            for n in ast.walk(b):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    cc.attrs_written.add(n.attr)
        cc.captured = self.captured(fr, s, cc)
        cc.defframe = fr
        fr.env[s.name] = leaf(T('uniq', cc))

    def captured(self, fr, s, cc):
        """attribute -> variable of the defining scope that its one instantiation passes and __init__ stores"""
        out = {}
        top = self.func.node
        sites = [n for n in ast.walk(top) if isinstance(n, ast.Name) and n.id == s.name and isinstance(n.ctx, ast.Load)]
        calls = [n for n in ast.walk(top) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == s.name]
        init = cc.methods.get('__init__')
        if len(sites) != 1 or len(calls) != 1 or init is None or calls[0].keywords or \
                any(isinstance(a, ast.Starred) for a in calls[0].args):
            return out
        a = init.node.args
        params = [x.arg for x in a.args]
        given = dict(zip(params[1:], calls[0].args))
        hidden = set()
        for n in ast.walk(top):
            if isinstance(n, (ast.Lambda, ast.FunctionDef)) and n is not top and any(m is calls[0] for m in ast.walk(n)):
                hidden |= {x.arg for x in n.args.args + n.args.kwonlyargs}
        stored = [n for n in ast.walk(top) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)]
        writes = [n for n in ast.walk(s) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)]
        istored = {n.id for n in ast.walk(init.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        for st in init.node.body:
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Attribute) and \
                    isinstance(st.targets[0].value, ast.Name) and st.targets[0].value.id == params[0] and \
                    isinstance(st.value, ast.Name) and st.value.id in given and st.value.id not in istored:
                nm, arg = st.targets[0].attr, given[st.value.id]
                if sum(w.attr == nm for w in writes) != 1 or not isinstance(arg, ast.Name) or arg.id in hidden or \
                        any(n.id == arg.id and n.lineno >= s.lineno for n in stored) or self.lookup(fr, arg.id) is None:
                    continue
                out[nm] = arg.id
        return out

    def s_Return(self, fr, s):
        v = NONE
        if s.value is not None:
            # `return helper_generator(...)` from a plain function that only delegates
            v = self.ev(fr, s.value)
            if v.atom is None and v.term[0] == 'uniq' and isinstance(v.term[1], GenVal) and \
                    isinstance(v.term[1].node, ast.FunctionDef) and self.tail_delegation(fr):
                gv = v.term[1]
                gv.run(lambda val: self.do_yield(fr, val, s.lineno))
                self.flags_gen = True
                v = NONE
                fr.delegated = True
                self.g = FALSE
                return
            v = self.escape(v)
        self.do_return(fr, v, s.lineno)

    def tail_delegation(self, fr):
        return True

    def do_return(self, fr, v, line):
        if self.g is FALSE:
            return
        if fr.loops:
            fr.loops[-1].rets.append((self.g, v))
            fr.loops[-1].line = line
            fr.loops[-1].rreach.append(dict(self.reach))
        else:
            fr.returns.append((self.g, v, line))
            fr.rreach.append(dict(self.reach))
        self.g = FALSE

    def s_If(self, fr, s):
        c = truth(self.ev(fr, s.test))
        self.branch(fr, c, lambda: self.run_body(fr, s.body), lambda: self.run_body(fr, s.orelse))

    def branch(self, fr, c, then, els):
        if c is TRUE:
            then()
            return
        if c is FALSE:
            els()
            return
        g0 = self.g
        env0 = self.snap(fr)
        r0 = dict(self.reach)
        self.g = AND(g0, c)
        if self.g is not FALSE:
            then()
        g1, env1, r1 = self.g, self.snap(fr), self.reach
        self.restore(fr, env0)
        self.reach = dict(r0)
        self.g = AND(g0, NOT(c))
        if self.g is not FALSE:
            els()
        g2, env2, r2 = self.g, self.snap(fr), self.reach
        self.g = OR(g1, g2)
        if g1 is FALSE:
            self.restore(fr, env2)
            self.reach = r2
        elif g2 is FALSE:
            self.restore(fr, env1)
            self.reach = r1
        else:
            self.restore(fr, self.merge_env(c, env1, env2, True))
            self.reach = self.merge_reach(r1, r2)

    def merge_reach(self, a, b):
        out = dict(a)
        for k, v in b.items():
            if k in out:
                if out[k] is not v:
                    out[k] = out[k] | v
            else:
                out[k] = v
        return out

    def frames(self, fr):
        seen = set()
        for f in [fr] + [c for c, _ in reversed(self.consumers)]:
            while f is not None and id(f) not in seen:
                seen.add(id(f))
                yield f
                f = f.parent

    def loop_key(self, s):
        return (id(s),) + tuple(id(f) for f, _ in self.consumers)

    def consumed(self, fr, names, run):
        """run an inlined generator whose items are consumed by code assigning `names` in frame fr"""
        outer = self.consumers
        self.consumers = outer + [(fr, frozenset(names))]
        self.keep.append(fr)

        def inside(f):
            def g(*a):
                inner, self.consumers = self.consumers, outer
                try:
                    return f(*a)
                finally:
                    self.consumers = inner
            return g
        try:
            run(inside)
        finally:
            self.consumers = outer

    def snap(self, fr):
        return [(f, dict(f.env)) for f in self.frames(fr)]

    def restore(self, fr, snap):
        for f, e in snap:
            f.env = dict(e)

    def merge_env(self, c, s1, s2, track=False):
        out = []
        other = {id(f): e for f, e in s2}
        for f, e1 in s1:
            e2 = other.get(id(f), e1)
            if e1 is e2:
                out.append((f, e1))
                continue
            e = {}
            for k in set(e1) | set(e2):
                v1 = e1.get(k)
                v2 = e2.get(k)
                if k[0] == '?':
                    # when the variable is set
                    e[k] = ite(c, v1 or TRUE, v2 or TRUE)
                elif v1 is v2:
                    e[k] = v1
                elif v1 is None:
                    e[k] = v2
                elif v2 is None:
                    e[k] = v1
                else:
                    g0 = self.g
                    self.g = AND(g0, c)
                    v1 = self.force(v1)
                    self.g = AND(g0, NOT(c))
                    v2 = self.force(v2)
                    self.g = g0
                    e[k] = self.mite(c, v1, v2)
                if (v1 is None or v2 is None) and track and k[0] not in '?$':
                    e['?' + k] = ite(c, FALSE if v1 is None else e1.get('?' + k, TRUE),
                                     FALSE if v2 is None else e2.get('?' + k, TRUE))
            out.append((f, e))
        return out

    def mite(self, c, a, b):
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if self.unpacked and a is not b:
            a, b = self.unpack_like(a, b), self.unpack_like(b, a)
        if a.atom is None and b.atom is None and a is not b and a.term[0] == 'uniq' and b.term[0] == 'uniq':
            x, y = a.term[1], b.term[1]
            if x.kind == y.kind and x.kind in ('newlist', 'newdict', 'newset') and x.loop is y.loop and \
                    x.alias is None and y.alias is None and not x.__dict__.get('touches') and not y.__dict__.get('touches') \
                    and AND(x.ga, y.ga) is FALSE:
                # two empty containers made on exclusive paths are one object from here on
                y.alias = a
                x.ga = OR(x.ga, y.ga)
                return a
        if a.atom is None and b.atom is None and a.term[0] == 'tuple' and b.term[0] == 'tuple' and \
                len(a.term) == len(b.term) and c.atom is not None and a is not b:
            xs = [unmt(x) for x in a.term[1:]]
            ys = [unmt(x) for x in b.term[1:]]
            mm = [x if x is y else self.minmax(c, x, y) for x, y in zip(xs, ys)]
            if any(m is not None and x is not y for m, x, y in zip(mm, xs, ys)):
                return leaf(T('tuple', *[self.as_term(ite(c, x, y) if m is None else m) for m, x, y in zip(mm, xs, ys)]))
        if c.atom is not None and a.atom is None and b.atom is None and a is not b:
            # x if x == k else k
            k, x = (a, b) if a.term[0] == 'const' else (b, a)
            if k.term[0] == 'const' and is_num(k.term[1]) and ('/model/' in self.root_mod or numeric(x.term)):
                eq = cmp3(x.term, k.term)[1]
                if c is (eq if x is a else NOT(eq)):
                    return k
        r = ite(c, a, b)
        # min/max idiom:  x if x < y else y
        if c.atom is not None and r.atom is not None and r.hi is not None:
            mm = self.minmax(c, a, b)
            if mm is not None:
                return mm
        if self.unpacked and r.nl <= 16:
            r = mapn(lambda t: leaf(repacked(t, self.unpacked)), r)
        return r

    def minmax(self, c, a, b):
        if a.atom is not None or b.atom is not None:
            if a.nl * b.nl > 64 or any(is_seqlike(t) or t[0] == 'const' and not is_num(t[1]) for m in (a, b)
                                       for _, t in leaves(m)):
                return None
            nm = None
            if c is self.compare('Lt', a, b) or c is self.compare('LtE', a, b):
                nm = 'min'
            elif c is self.compare('Gt', a, b) or c is self.compare('GtE', a, b):
                nm = 'max'

            def pick(x, y):
                lt, eq, gt = cmp3(x, y)
                if OR(lt, eq) is TRUE:
                    return leaf(x if nm == 'min' else y)
                if OR(gt, eq) is TRUE:
                    return leaf(y if nm == 'min' else x)
                return leaf(self.mkapp(nm, [x, y]))
            return nm and mapn(pick, a, b)
        ta, tb = a.term, b.term
        if ta[0] == 'const' and tb[0] == 'const':
            return None
        for t in (ta, tb):
            if is_seqlike(t) or (t[0] == 'const' and not is_num(t[1])):
                return None
        at = atom_term(c.atom)
        if at[0] not in ('gt0', 'eq0'):
            return None
        lt, eq, gt = cmp3(ta, tb)
        le = OR(lt, eq)
        ge = OR(gt, eq)
        if c is lt or c is le:
            return leaf(self.mkapp('min', [ta, tb]))
        if c is gt or c is ge:
            return leaf(self.mkapp('max', [ta, tb]))
        return None

    def mkapp(self, name, ts):
        return T('app', name, tuple(leaf(x) if not isinstance(x, MT) else x for x in ts), frozenset())

    def s_Assert(self, fr, s):
        c = truth(self.ev(fr, s.test))
        if c is TRUE:
            return
        g0 = self.g
        self.g = AND(g0, NOT(c))
        if self.g is not FALSE:
            self.do_raise(leaf(T('glob', 'AssertionError')), s.lineno)
        self.g = AND(g0, c)

    def do_raise(self, v, line):
        """raising inside a loop ends the loop; the exception itself is an effect after it"""
        if len(self.lctx) > self.rstop:
            lc = self.lctx[-1]
            lc.raises.append((restrict(self.full_guard(), lc.outer), v, line))
            return
        self.emit('raise', [v], line=line)

    def is_exit(self, fr, e):
        """exit(..) / sys.exit(..): raises SystemExit"""
        f = e.func if isinstance(e, ast.Call) else None
        if isinstance(f, ast.Name) and f.id in ('exit', 'quit') or isinstance(f, ast.Attribute) and f.attr == 'exit' and \
                isinstance(f.value, ast.Name):
            v = self.ev(fr, f)
            return v.atom is None and v.term in (T('glob', 'exit', 'builtin'), T('glob', 'quit', 'builtin'),
                                                 T('glob', 'sys.exit', 'ext'))
        return False

    @staticmethod
    def all_of(t):
        """x[:]"""
        return isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Slice) and t.slice.lower is None and \
            t.slice.upper is None and t.slice.step is None

    def s_Raise(self, fr, s):
        if s.exc is None:
            v = leaf(T('glob', 'reraise'))
        else:
            e = s.exc
            if isinstance(e, ast.Call):
                e = e.func
            v = self.ev(fr, e)
        self.do_raise(v, s.lineno)
        self.g = FALSE

    def s_Assign(self, fr, s):
        if len(s.targets) == 1 and self.all_of(s.targets[0]) and isinstance(s.value, ast.List) and not s.value.elts:
            b = self.ev(fr, s.targets[0].value)
            self.emit('m', [b], mods=self.region(b), callee='clear', line=s.lineno)
            return
        v = self.ev(fr, s.value)
        for t in s.targets:
            self.assign(fr, t, v, s.lineno)

    def s_AnnAssign(self, fr, s):
        if s.value is not None:
            self.assign(fr, s.target, self.ev(fr, s.value), s.lineno)

    def set_var(self, fr, name, v):
        f = fr
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None and name not in f.env:
                f = f.parent
            if f is None:
                f = fr
        f.env[name] = v
        f.env.pop('?' + name, None)

    def assign(self, fr, t, v, line):
        if isinstance(t, ast.Name):
            self.set_var(fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.force(v)
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            n = len(t.elts)
            if stars:
                k = stars[0]
                for i, e in enumerate(t.elts):
                    if i < k:
                        self.assign(fr, e, self.proj(v, i, None), line)
                    elif i == k:
                        sl = T('slice', const(k) if k else NONE, const(k - n + 1) if k < n - 1 else NONE, NONE)
                        # the starred name gets a list of its own
                        self.assign(fr, e.value, self.to_list(fr, self.slice_sub(v, leaf(sl)), line), line)
                    else:
                        self.assign(fr, e, self.proj(v, i - n, None), line)
            else:
                vals = [self.proj(v, i, n) for i in range(n)]
                for e, x in zip(t.elts, vals):
                    self.assign(fr, e, x, line)
        elif isinstance(t, ast.Attribute):
            b = self.ev(fr, t.value)
            v = self.escape(v)
            if b.atom is None and b.term[0] == 'selfcc':
                cc = b.term[1]
            mods = {'a:' + t.attr}
            g0 = self.g
            if v.atom is not None and b.atom is None:
                # nothing is stored where the value is the one there already
                now = self.force(self.attr(fr, b, t.attr))
                self.g = AND(g0, self.differs(v, now))
                if self.g is FALSE:
                    self.g = g0
                    return
            e = self.emit('setattr', [b, const(t.attr), v], mods=mods, line=line)
            self.reach['a:' + t.attr] = self.reach['a:' + t.attr]
            e.fwd = (b, t.attr, v, self.g, self.outer)
            self.g = g0
        elif isinstance(t, ast.Subscript):
            b = self.ev(fr, t.value)
            if isinstance(t.slice, ast.Slice):
                k = self.slice_val(fr, t.slice)
            else:
                k = self.ev(fr, t.slice)
            v = self.escape(v)
            k = self.escape(k)
            g0 = self.g
            if v.atom is not None and b.atom is None and k.atom is None and not isinstance(t.slice, ast.Slice) and \
                    ('/model/' in self.root_mod or b.term[0] == 'uniq' and b.term[1].kind in ('newlist', 'newdict')):
                self.g = AND(g0, self.differs(v, self.force(self.sub_read(b, k))))
                if self.g is FALSE:
                    self.g = g0
                    return
            self.emit('setitem', [b, k, v], mods=self.region(b), line=line)
            self.g = g0
        elif isinstance(t, ast.Starred):
            self.assign(fr, t.value, v, line)
        else:
            raise Unsupported('target ' + type(t).__name__)

    def differs(self, a, b):
        """where a and b are not certainly one value"""
        if a.nl * b.nl > 64:
            return TRUE
        return mapn(lambda x, y: FALSE if x is y else TRUE, a, b)

    def proj(self, v, i, n):
        def f(t):
            if t[0] == 'tuple' and -len(t) + 1 <= i < len(t) - 1:
                x = t[1:][i]
                return unmt(x)
            if t[0] == 'const' and isinstance(t[1], tuple) and -len(t[1]) <= i < len(t[1]):
                return const(t[1][i])
            if t[0] == 'app' and t[1] == 'ctor:CoordPayload' and len(t[2]) == 2 and i in (0, 1):
                return t[2][i]
            if t[0] == 'slice_of' and i >= 0 and t[2][3] is NONE and t[2][1] is NONE:
                # what is sliced off the front
                return self.sub_read(leaf(t[1]), const(i))
            if n is not None:
                self.unpacked.add((t, n))
            return leaf(T('sub', t, T('const', i), frozenset()))
        return mapn(f, v)

    def unpack_like(self, a, b):
        """x  is  (x[0], x[1])  next to another pair"""
        ns = {len(t) - 1 for _, t in leaves(b) if t[0] == 'tuple'}

        def f(t):
            for n in ns:
                if (t, n) in self.unpacked:
                    return leaf(T('tuple', *[T('sub', t, T('const', i), frozenset()) for i in range(n)]))
            return leaf(t)
        return mapn(f, a) if ns else a

    def s_AugAssign(self, fr, s):
        op = type(s.op).__name__
        line = s.lineno
        rhs = self.force(self.ev(fr, s.value))
        t = s.target
        if op == 'LShift':
            cur = self.load_target(fr, t)
            mods = self.call_mods('__ilshift__', None) | self.region(cur)
            e = self.emit('call', [self.escape(cur), self.escape(rhs)], mods=mods, callee='.__ilshift__', line=line)
            if isinstance(t, ast.Name):
                r = Uniq('res', effect=e)
                # payload/fiber references keep their identity
                self.set_var(fr, t.id, leaf(T('uniq', r)))
                r.show = lambda: T('app', '.__ilshift__', tuple(e.args), frozenset())
            return
        cur = self.load_target(fr, t)
        if isinstance(t, ast.Name) and op in ('Add', 'Sub', 'Mult'):
            # in-place on something that may be a boxed value
            def boxed(m):
                return any(not numeric(x) and not is_seqlike(x) and not is_strlike(x) and
                           self.maybe_box_term(x) for _, x in leaves(m))
            allnum = all(numeric(x) or (x[0] == 'const') for _, x in leaves(rhs))
            if all(x[0] == 'uniq' and x[1].kind == 'newlist' for _, x in leaves(cur)):
                self.list_extend(fr, cur, rhs, line)
                return
            if not allnum and boxed(cur) and not any(is_strlike(x) for _, x in leaves(rhs)):
                nm = {'Add': '__iadd__', 'Sub': '__isub__', 'Mult': '__imul__'}[op]
                mods = {'a:value'} | self.region(cur)
                e = self.emit('call', [self.escape(cur), self.escape(rhs)], mods=mods, callee='.' + nm, line=line)
                r = Uniq('res', effect=e)
                r.show = lambda: T('app', '.' + nm, tuple(e.args), frozenset())
                self.set_var(fr, t.id, leaf(T('uniq', r)))
                return
        if isinstance(t, ast.Attribute) and op == 'Add' and all(self.is_list_attr(x) for _, x in leaves(cur)):
            self.list_extend(fr, cur, rhs, line)
            return
        val = self.binop(op, cur, rhs, line)
        if isinstance(t, ast.Name):
            self.set_var(fr, t.id, val)
        elif isinstance(t, ast.Attribute):
            self.assign(fr, t, val, line)
        else:
            b = self.ev(fr, t.value)
            k = self.ev(fr, t.slice) if not isinstance(t.slice, ast.Slice) else self.slice_val(fr, t.slice)
            self.emit('setitem', [b, k, self.escape(val)], mods=self.region(b), line=line)

    def is_list_attr(self, t):
        return t[0] == 'attr' and t[2] in self.prog.list_attrs

    def maybe_box_term(self, t):
        """could this value be a mutable boxed payload/fiber (so that += mutates it)?"""
        if '/model/' in self.root_mod or 'codec' in self.root_mod:
            return False        # the model and the codecs count in plain numbers
        if t[0] == 'sub' or t[0] == 'param':
            return True
        if t[0] == 'uniq' and t[1].kind == 'res':
            return True
        if t[0] == 'uniq' and t[1].kind == 'mu':
            return any(self.maybe_box_term(x) for _, x in leaves(t[1].init))
        if t[0] == 'app' and t[1].startswith('.get') if isinstance(t[1], str) and t[0] == 'app' else False:
            return False
        return False

    def load_target(self, fr, t):
        import copy as _c
        n = _c.copy(t)
        n.ctx = ast.Load()
        return self.force(self.ev(fr, n))

    def list_extend(self, fr, cur, rhs, line):
        self.consume(fr, rhs, lambda v: self.emit('m', [cur, self.escape(v)], mods=self.region(cur),
                                                  callee='append', line=line), line)

    def s_Delete(self, fr, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.ev(fr, t.value)
                if self.all_of(t):
                    self.emit('m', [b], mods=self.region(b), callee='clear', line=s.lineno)
                    continue
                k = self.slice_val(fr, t.slice) if isinstance(t.slice, ast.Slice) else self.ev(fr, t.slice)
                self.emit('m', [b, k], mods=self.region(b), callee='pop', line=s.lineno)
            elif isinstance(t, ast.Attribute):
                b = self.ev(fr, t.value)
                self.emit('delattr', [b, const(t.attr)], mods={'a:' + t.attr}, line=s.lineno)

    def s_Break(self, fr, s):
        lc = fr.loops[-1]
        lc.breaks.append((self.g, self.snap(fr), dict(self.reach)))
        self.g = FALSE

    def s_Continue(self, fr, s):
        lc = fr.loops[-1]
        lc.conts.append((self.g, self.snap(fr), dict(self.reach)))
        self.g = FALSE

    def s_With(self, fr, s):
        closers = []
        for it in s.items:
            v = self.force(self.ev(fr, it.context_expr))
            if it.optional_vars is not None:
                self.assign(fr, it.optional_vars, v, s.lineno)
            closers.append(v)
        gin = self.g
        self.run_body(fr, s.body)
        g0, self.g = self.g, gin        # closed however the block is left
        for v in reversed(closers):
            self.emit('m', [self.escape(v)], mods={'io'} | self.region(v), callee='close', line=s.lineno)
        self.g = g0

    def s_Try(self, fr, s):
        tu = Uniq('try', effects=[])
        n0 = len(self.effects)
        g0, env0, r0 = self.g, self.snap(fr), dict(self.reach)
        nr = len(fr.returns)
        nl = len(fr.loops[-1].rets) if fr.loops else 0
        rstop, self.rstop = self.rstop, len(self.lctx)
        self.run_body(fr, s.body)
        self.rstop = rstop
        tu.effects = self.effects[n0:]
        if all(h.type is not None and ast.unparse(h.type) == 'StopIteration' for h in s.handlers):
            # what changes a container does not raise it
            tu.effects = [e for e in tu.effects if e.kind not in ('m', 'setattr', 'setitem')]
        for e in self.effects[n0:]:
            e.tried = True
        ne = TRUE
        for h in s.handlers:
            ne = AND(ne, NOT(atom(T('exc', ast.unparse(h.type) if h.type is not None else 'Exception', tu))))
        fr.returns[nr:] = [(AND(x[0], ne),) + tuple(x[1:]) for x in fr.returns[nr:]]
        if fr.loops:
            fr.loops[-1].rets[nl:] = [(AND(x[0], ne),) + tuple(x[1:]) for x in fr.loops[-1].rets[nl:]]
        if s.orelse:
            self.run_body(fr, s.orelse)
        gb, envb, rb = self.g, self.snap(fr), self.reach
        conds = []
        for h in s.handlers:
            ty = ast.unparse(h.type) if h.type is not None else 'Exception'
            conds.append(atom(T('exc', ty, tu)))
        # control-flow atoms: handler i taken iff exception of that type was raised in the body
        acc_env, acc_g, acc_r = envb, gb, rb
        none_exc = TRUE
        for c in conds:
            none_exc = AND(none_exc, NOT(c))
        # effects of the body stay unconditional; what follows it on the normal path is guarded
        acc_g = AND(gb, none_exc)
        taken = TRUE
        for c, h in zip(conds, s.handlers):
            # the environment at the handler: the one before the body (conservative)
            self.restore(fr, env0)
            self.reach = self.merge_reach(r0, rb)
            self.g = AND(AND(g0, taken), c)
            if h.name:
                self.set_var(fr, h.name, leaf(T('excval', T('glob', ast.unparse(h.type) if h.type else 'E'))))
            self.run_body(fr, h.body)
            if self.g is not FALSE:
                if acc_g is FALSE:
                    acc_env, acc_r = self.snap(fr), self.reach
                else:
                    acc_env = self.merge_env(c, self.snap(fr), acc_env)
                    acc_r = self.merge_reach(acc_r, self.reach)
                acc_g = OR(acc_g, self.g)
            taken = AND(taken, NOT(c))
        self.g = acc_g
        self.restore(fr, acc_env)
        self.reach = acc_r
        # returns recorded in the try body are taken only if no exception occurred: leave
        if s.finalbody and self.g is not FALSE:
            self.run_body(fr, s.finalbody)

    # ------------------------------------------------------------ loops
    def s_For(self, fr, s):
        it = self.ev(fr, s.iter)
        names = assigned_names(s.body) | assigned_names([s.target])

        def bind(v):
            self.assign(fr, s.target, v, s.lineno)
        self.for_over(fr, it, bind, lambda: self.run_body(fr, s.body), names, s,
                      orelse=(lambda: self.run_body(fr, s.orelse)) if s.orelse else None)

    def exit_block(self, s):
        """while T: (if A: B else: X; break)   is   while T and A: B   and then   if T: X"""
        k = ('exit', id(s))
        if k in self.fusions:
            return self.fusions[k]
        r = None
        if not s.orelse and s.body and isinstance(s.body[0], ast.If):
            f = s.body[0]
            rest = s.body[1:]
            for x, y, neg in ((f.orelse, f.body + rest, False), (f.body, f.orelse + rest, True)):
                if len(x) > 1 and isinstance(x[-1], ast.Break) and y and \
                        not any(isinstance(n, (ast.Break, ast.Return, ast.Continue)) for b in x[:-1] for n in ast.walk(b)) and \
                        not any(isinstance(n, (ast.Break, ast.Return)) for b in y for n in ast.walk(b)) and \
                        not any(isinstance(n, (ast.Call, ast.NamedExpr, ast.Yield, ast.Await)) for n in ast.walk(s.test)) and \
                        not any(isinstance(n, (ast.NamedExpr, ast.Yield, ast.Await)) or isinstance(n, ast.Call) and
                                not (isinstance(n.func, ast.Name) and n.func.id in ('len', 'isinstance')) for n in ast.walk(f.test)):
                    a = ast.UnaryOp(op=ast.Not(), operand=f.test) if neg else f.test
                    w = ast.While(test=ast.BoolOp(op=ast.And(), values=[s.test, a]), body=list(y), orelse=[])
                    i = ast.If(test=s.test, body=x[:-1], orelse=[])
                    for n in (w, w.test, a, i):
                        ast.copy_location(n, s)
                    r = (w, i)
                    break
        self.fusions[k] = r
        self.keep.append(s)
        return r

    def s_While(self, fr, s):
        ex = self.exit_block(s)
        if ex is not None:
            self.s_While(fr, ex[0])
            if self.g is not FALSE:
                self.s_If(fr, ex[1])
            return
        names = assigned_names(s.body) | assigned_names([s.test])
        ann = self.counting.get(id(s))
        if ann is not None:
            self.while_as_for(fr, s, names, ann)
            return

        def attempt(final):
            L = Uniq('loop', parent=self.loops[-1] if self.loops else None, iter=None, kind2='while',
                     mods={}, ctx=None, line=s.lineno, gexit=FALSE, label='while')
            self.loop_common(fr, L, names, lambda: self.run_body(fr, s.body), s,
                             test=lambda: truth(self.ev(fr, s.test)),
                             orelse=(lambda: self.run_body(fr, s.orelse)) if s.orelse else None)
            return L
        st = self.save()
        snap = self.snap(fr)
        L = attempt(False)
        # counting while?
        ind = self.induction(fr, s, L)
        redo = False
        if ind is not None:
            self.counting[id(s)] = ind
            redo = True
        inv = self.invariants(L)
        der = self.derivations(L)
        lk = self.loop_key(s)
        if (inv or self.inductions(L) or der) and lk not in self.invariant:
            self.invariant[lk] = inv
            self.induct[lk] = self.inductions(L)
            self.derived[lk] = der
            redo = True
        if redo:
            self.load(fr, st)
            self.restore(fr, snap)
            self.s_While(fr, s)

    def invariants(self, L):
        return {m.key for m in L.mus if self.is_self(m)} if getattr(L, 'mus', None) else set()

    def is_self(self, mu):
        return mu.next is not None and mu.next.atom is None and mu.next.term[0] == 'uniq' and mu.next.term[1] is mu

    def induction(self, fr, s, L):
        """while loops of the form  while i < N [and P]: ... i += 1 """
        c = L.test
        if c is None or c is TRUE or c is FALSE:
            return None
        for m in L.mus:
            if m.next is None or m.next.atom is not None:
                continue
            d = padd(poly(m.next.term), poly(T('uniq', m)), -1)
            if d != {(): 1}:
                continue
            if m.init.atom is not None:
                continue
            # find the bound: atom gt0(N - i)
            for a in atoms_of(c):
                at = atom_term(a)
                if at[0] == 'gt0':
                    p = poly(at[1])
                    k = (T('uniq', m),)
                    if p.get(k) == -1:
                        G = node(a, TRUE, FALSE)
                        N = unpoly(padd(p, {k: 1}))
                    elif p.get(k) == 1:
                        # atom is (i - N) > 0; i < N is  not gt0 and not eq0
                        N = unpoly({kk: -v for kk, v in p.items() if kk != k})
                        lt, eq, gt = cmp3(T('uniq', m), N)
                        G = lt
                    else:
                        continue
                    if any(x is m for x in self.uniqs_in(N)):
                        continue
                    if AND(c, NOT(G)) is not FALSE:
                        continue
                    if self.depends(leaf(N), L):
                        continue
                    # value used after the loop only through i itself
                    return (m.key, N)
                if at[0] == 'thr':
                    p, kk = poly(at[1]), at[2]
                    k = (T('uniq', m),)
                    G = thr(at[1], kk)
                    if p.get(k) == 1:
                        # i - N' >= kk stops the loop
                        G = NOT(G)
                        N = unpoly(padd({kx: -v for kx, v in p.items() if kx != k}, {(): kk}))
                    elif p.get(k) == -1:
                        N = unpoly(padd(padd(p, {k: 1}), {(): 1 - kk}))
                    else:
                        continue
                    if any(x is m for x in self.uniqs_in(N)) or AND(c, NOT(G)) is not FALSE or \
                            self.depends(leaf(N), L):
                        continue
                    return (m.key, N)
            # i < len(S): canonical form is a gt0 atom on len - i, handled above
        return None

    def uniqs_in(self, t, acc=None, seen=None):
        if acc is None:
            acc, seen = [], set()
        if id(t) in seen:
            return acc
        seen.add(id(t))
        if isinstance(t, Uniq):
            acc.append(t)
        elif isinstance(t, MT):
            for a in atoms_of(t):
                self.uniqs_in(atom_term(a), acc, seen)
            for _, l in mleaves(t):
                self.uniqs_in(l, acc, seen)
        elif isinstance(t, tuple):
            for x in t:
                if isinstance(x, (Uniq, MT, tuple)):
                    self.uniqs_in(x, acc, seen)
        return acc

    def while_as_for(self, fr, s, names, ann):
        var, _ = ann
        init = fr.env.get(var)
        # evaluate the bound outside of the loop by evaluating the test with a symbolic idx
        L = Uniq('loop', parent=self.loops[-1] if self.loops else None, iter=None, kind2='for',
                 mods={}, ctx=None, line=s.lineno, gexit=FALSE, label='for')
        # N computed on the environment before the loop
        N = self.eval_bound(fr, s, var)
        self.set_range_iter(L, init.term, N, T('const', 1))
        L.idx_var = var
        start = init.term
        ival = unpoly(padd(poly(start), {(T('idx', L),): 1}))

        def pre():
            self.set_var(fr, var, leaf(ival))

        def test():
            c = truth(self.ev(fr, s.test))
            c = restrict(c, cmp3(ival, N)[0])
            # the bound as read inside the loop, where it is the same
            return restrict(c, cmp3(ival, self.eval_bound(fr, s, var))[0])
        self.loop_common(fr, L, names - {var}, lambda: self.run_body(fr, s.body), s, pre=pre, test=test,
                         orelse=(lambda: self.run_body(fr, s.orelse)) if s.orelse else None, isfor=True,
                         after=lambda: self.set_var(fr, var, self.after_count(fr, L, var, N, init)))

    def after_count(self, fr, L, var, N, init):
        cur = fr.env.get(var)
        if L.brk_val is not None and (id(fr), var) in L.brk_val:
            ex = atom(T('exit', L, L.gbrk))
            return ite(ex, L.brk_val[id(fr), var], leaf(N))
        return leaf(N)

    def eval_bound(self, fr, s, var):
        # find compare node "var < bound" in the test (possibly inside an And)
        test = s.test
        cands = test.values if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And) else [test]
        for c in cands:
            if isinstance(c, ast.Compare) and len(c.ops) == 1:
                l, r, op = c.left, c.comparators[0], type(c.ops[0]).__name__
                if isinstance(l, ast.Name) and l.id == var and op in ('Lt', 'LtE', 'NotEq'):
                    b = self.ev(fr, r)
                    if b.atom is None:
                        return unpoly(padd(poly(b.term), {(): 1})) if op == 'LtE' else b.term
                if isinstance(r, ast.Name) and r.id == var and op in ('Gt', 'GtE', 'NotEq'):
                    b = self.ev(fr, l)
                    if b.atom is None:
                        return unpoly(padd(poly(b.term), {(): 1})) if op == 'GtE' else b.term
        raise Unsupported('bound of counting while')

    def set_range_iter(self, L, a, b, step):
        L.range = (a, b, step)
        if step[0] == 'const' and step[1] in (1, -1):
            # only the number of iterations matters here
            n = unpoly(padd(poly(b), poly(a), -1)) if step[1] == 1 else unpoly(padd(poly(a), poly(b), -1))
            if n[0] == 'app' and n[1] == 'len':
                q = n[2][0]
                if q.atom is None and q.term[0] == 'slice_of':
                    lo, hi, st = q.term[2][1:]
                    if hi is NONE and st is NONE and lo.atom is None and lo.term[0] == 'const' and is_num(lo.term[1]) and \
                            lo.term[1] >= 0:
                        L.iter = ('upto', leaf(unpoly(padd(poly(self.mkapp_len(q.term[1])), {(): -lo.term[1]}))))
                        return
                L.iter = ('seq', self.pair_canon(q))
            else:
                L.iter = ('upto', leaf(n))
        else:
            L.iter = ('range', leaf(a), leaf(b), leaf(step))

    def pair_canon(self, m):
        """len(X.payloads) is len(X.coords) (parallel lists)"""
        if 'codec' in self.root_mod:
            return m

        def f(t):
            if t[0] == 'attr' and t[2] == 'payloads':
                return leaf(T('attr', t[1], 'coords', t[3]))
            if t[0] == 'uniq' and t[1].kind == 'newlist':
                return self.mapped_from(t[1]) or leaf(t)
            return leaf(t)
        return mapn(f, m)

    def mapped_from(self, u):
        """the sequence a list was built from with one element per element"""
        ts = u.__dict__.get('touches', ())
        if len(ts) != 1 or u.alias is not None:
            return None
        (e,) = ts
        L = e.loop
        if e.kind != 'm' or e.callee != 'append' or L is None or L.parent is not u.loop or L.gexit is not FALSE or \
                L in self.loops or L.iter is None or L.iter[0] != 'seq' or e.guard is not u.ga:
            return None
        return L.iter[1]

    def save(self):
        return (self.g, self.outer, dict(self.reach), len(self.effects), self.calls_unknown[:],
                [{k: set(v) for k, v in L.mods.items()} for L in self.loops], self.flags[:])

    def load(self, fr, st):
        self.g, self.outer, self.reach = st[0], st[1], dict(st[2])
        del self.effects[st[3]:]
        self.calls_unknown = st[4][:]
        for L, m in zip(self.loops, st[5]):
            L.mods = {k: set(v) for k, v in m.items()}
        self.flags = st[6][:]

    def loop_common(self, fr, L, names, body, s, pre=None, test=None, orelse=None, isfor=False, after=None):
        lk = self.loop_key(s)
        slots = {}
        for n in names:
            slots[n] = (fr, n)
        for i, (cf, ns) in enumerate(self.consumers):
            for n in ns:
                slots['%s^%d' % (n, i)] = (cf, n)
        for n, (f, v) in list(slots.items()):
            if v in f.nonlocals:
                f = f.parent
                while f is not None and v not in f.env:
                    f = f.parent
            if f is None or v not in f.env or n in self.invariant.get(lk, ()):
                if f is None or n in self.invariant.get(lk, ()):
                    del slots[n]
                continue
            slots[n] = (f, v)

        def val(n):
            f, v = slots[n]
            return f.env.get(v)
        ind = self.induct.get(lk, {}) if isfor else {}
        ind = {n: c for n, c in ind.items() if n in slots and val(n) is not None and val(n).atom is None}
        islots = {n: slots.pop(n) for n in ind}
        if ind:
            inits = {n: f.env[v].term for n, (f, v) in islots.items()}
            pre0, after0 = pre, after

            def pre():
                for n, c in ind.items():
                    f, v = islots[n]
                    f.env[v] = leaf(unpoly(padd(poly(inits[n]), {(T('idx', L),): c})))
                if pre0:
                    pre0()

            def after():
                if after0:
                    after0()
                tc = poly(self.trip(L))
                for n, c in ind.items():
                    f, v = islots[n]
                    end = leaf(unpoly(padd(poly(inits[n]), pmul({(): c}, tc))))
                    if L.brk_val is not None and (id(f), v) in L.brk_val:
                        end = ite(atom(T('exit', L, L.gbrk)), L.brk_val[id(f), v], end)
                    f.env[v] = end
        lag = self.lagged.get(lk, {}) if isfor else {}
        lag = {n: x for n, x in lag.items() if n in slots and val(n) is not None and val(n).atom is None}
        lslots = {n: slots.pop(n) for n in lag}
        if lag:
            pre1, after1 = pre, after

            def pre():
                for n, (t, i) in lag.items():
                    f, v = lslots[n]
                    f.env[v] = leaf(self.shift(t, i, padd({(T('idx', L),): 1}, {(): -1})))
                if pre1:
                    pre1()

            def after():
                if after1:
                    after1()
                for n, (t, i) in lag.items():
                    f, v = lslots[n]
                    end = leaf(self.shift(t, i, padd(poly(self.trip(L)), {(): -1})))
                    if L.brk_val is not None and (id(f), v) in L.brk_val:
                        end = ite(atom(T('exit', L, L.gbrk)), L.brk_val[id(f), v], end)
                    f.env[v] = end
        der = {n: d for n, d in self.derived.get(lk, {}).items() if n in slots and d[0] in slots and
               val(n) is not None and val(d[0]) is not None}
        dslots = {n: slots.pop(n) for n in der}
        env_in = self.snap(fr)
        L.mus = []
        L.test = None
        acc = {}
        # variables living in this frame, in (nonlocal) parents or in the frame consuming this generator
        for n in sorted(slots):
            f, v = slots[n]
            f.env.pop('?' + v, None)
            if v in f.env:
                mu = Uniq('mu', loop=L, init=self.under(self.force(f.env[v])), next=None, name=v)
                L.mus.append(mu)
                mu.frame = f
                mu.key = n
                f.env[v] = leaf(T('uniq', mu))
                if n in self.accum.get(lk, ()):
                    # what comes on top of the first value
                    acc[mu] = mu.init
                    mu.init = const(0)
                    f.env[v] = self.binop('Add', acc[mu], f.env[v], 0)
        for n, (w, tm, hole) in der.items():
            wf, wv = slots[w]
            x = subst(tm, hole, wf.env[wv].term) if wf.env[wv].atom is None else None
            if x is not None:
                f, v = dslots[n]
                f.env[v] = leaf(x)
        env_head = self.snap(fr)
        # loops nested in closures' frames share the builder loop stack
        self.loops.append(L)
        lc = LoopCtx(L)
        fr.loops.append(lc)
        self.lctx.append(lc)
        g0, outer0 = self.g, self.outer
        self.outer = AND(outer0, g0)
        lc.outer = self.outer
        self.g = TRUE
        r_head = dict(self.reach)
        if pre:
            pre()
        cond_break = None
        if test is not None:
            c = test()
            L.test = c
            if c is not TRUE:
                lc.breaks.append((NOT(c), self.snap(fr), dict(self.reach)))
                self.g = c
        if self.g is not FALSE:
            body()
        # back edge
        cg, cenv, cr = self.g, self.snap(fr), self.reach
        for (g, env, r) in lc.conts:
            if g is FALSE:
                continue
            if cg is FALSE:
                cg, cenv, cr = g, env, r
            else:
                cenv = self.merge_env(g, env, cenv)
                cg = OR(cg, g)
                cr = self.merge_reach(cr, r)
        envmap = {id(f): e for f, e in cenv}
        for mu in L.mus:
            if cg is FALSE:
                mu.next = leaf(T('uniq', mu))
            else:
                mu.next = self.force(envmap[id(mu.frame)].get(mu.name, UNDEF))
                if mu in acc and mu.next is not UNDEF:
                    mu.next = self.binop('Sub', mu.next, acc[mu], 0)
            if self.is_self(mu):
                mu.alias = mu.init
            elif mu.init.atom is None and mu.init.term in (TRUE_T, FALSE_T) and \
                    all(t in (TRUE_T, FALSE_T) or t[0] == 'uniq' and t[1] is mu for _, t in leaves(mu.next)):
                mu.next = truth(mu.next)
        L.gback = cg
        fr.loops.pop()
        self.lctx.pop()
        self.loops.pop()
        self.g, self.outer = g0, outer0
        # ---------------- exits
        bg, benv, br = FALSE, None, None
        for (g, env, r) in lc.breaks:
            if g is FALSE:
                continue
            if bg is FALSE:
                bg, benv, br = g, env, r
            else:
                benv = self.merge_env(g, env, benv)
                bg = OR(bg, g)
                br = self.merge_reach(br, r)
        rg, rv = FALSE, None
        for (g, v) in lc.rets:
            if rg is FALSE:
                rg, rv = g, v
            else:
                rv = ite(g, v, rv)
                rg = OR(rg, g)
        xg, xv = FALSE, []
        for (g, v, line) in lc.raises:
            if g is not FALSE:
                xg = OR(xg, g)
                for i, (h, w, l) in enumerate(xv):
                    if w is v:
                        xv[i] = (OR(h, g), w, l)
                        break
                else:
                    xv.append((g, v, line))
        L.gexit = OR(OR(bg, rg), xg)
        L.gbrk = bg
        L.gret = rg
        L.brk_val = None
        infinite = (not isfor)
        # reach after the loop
        reach_after = self.merge_reach(r_head, cr if cg is not FALSE else r_head)
        if br is not None:
            reach_after = self.merge_reach(reach_after, br)
        for r in lc.rreach:
            reach_after = self.merge_reach(reach_after, r)
        self.reach = reach_after
        # normal end environment: header values
        head = {id(f): dict(e) for f, e in env_head}
        out = []
        simple = self.flag_values(L)
        for f, e in env_head:
            ne = dict(e)
            for mu in L.mus:
                if mu.frame is f:
                    if mu.alias is not None:
                        ne[mu.name] = mu.init
                    elif mu.key in simple:
                        ne[mu.name] = simple[mu.key]
                    else:
                        ne[mu.name] = leaf(T('fin', L, T('uniq', mu), self.one_leaf(mu.init)))
                    if mu in acc:
                        ne[mu.name] = self.binop('Add', acc[mu], ne[mu.name], 0)
            # variables first assigned inside the loop
            be = envmap.get(id(f), {})
            for k, v in be.items():
                if k not in ne and v is not None and k[0] != '?':
                    ne[k] = self.wrap_fin(L, v)
            out.append((f, ne))
        if bg is not FALSE:
            bout = []
            brk_val = {}
            for f, e in benv:
                ne = {}
                for k, v in e.items():
                    if k[0] == '?':
                        continue
                    ne[k] = self.wrap_at(L, bg, v)
                    brk_val[id(f), k] = ne[k]
                bout.append((f, ne))
            L.brk_val = brk_val
            if infinite:
                out2 = bout
            else:
                ex = atom(T('exit', L, bg))
                out2 = self.merge_env(ex, bout, out)
        else:
            out2 = out
        if infinite and bg is FALSE:
            # never leaves normally
            self.g = FALSE if rg is FALSE and xg is FALSE else self.g
        if xg is not FALSE:
            gsave = self.g
            if infinite and bg is FALSE and rg is FALSE:
                only = TRUE
                self.g = FALSE
            else:
                only = None
                self.g = AND(gsave, NOT(atom(T('exit', L, xg))))
            rest = self.g
            for i, (g, v, line) in enumerate(xv):
                self.g = AND(gsave, only if only is not None and len(xv) == 1 else atom(T('exit', L, g)))
                if self.g is not FALSE:
                    self.do_raise(v, line)
            self.g = rest
        # returns inside the loop
        if rg is not FALSE:
            self.restore(fr, out2)
            if infinite and bg is FALSE:
                exr = TRUE
            else:
                exr = atom(T('exit', L, rg))
            gsave = self.g
            self.g = AND(gsave, exr)
            self.do_return(fr, self.wrap_at(L, rg, rv), getattr(lc, 'line', L.line))
            self.g = AND(gsave, NOT(exr))
        self.restore(fr, out2)
        if after:
            after()
        if orelse is not None:
            if bg is FALSE:
                orelse()
            else:
                self.branch(fr, atom(T('exit', L, bg)), lambda: None, orelse)

    def trip(self, L):
        """number of iterations of a for loop that runs to its end"""
        it = L.iter
        if it is not None and it[0] == 'upto' and it[1].atom is None:
            return it[1].term
        if it is not None and it[0] == 'seq' and it[1].atom is None:
            return self.mkapp_len(it[1].term)
        return T('trip', L)

    def inductions(self, L):
        """loop variables that grow by a constant on every iteration"""
        out = {}
        for m in L.mus:
            if m.next is None or m.next.atom is not None or m.init.atom is not None or m.alias is not None:
                continue
            d = padd(poly(m.next.term), poly(T('uniq', m)), -1)
            if list(d) == [()] and is_num(d[()]) and numeric(m.init.term):
                out[m.key] = d[()]
        return out

    def accumulators(self, L):
        """loop variables that sum up on top of a first value"""
        out = set()
        for m in L.mus:
            if m.next is None or m.alias is not None or m.init is const(0):
                continue
            me = T('uniq', m)
            plain = '/model/' in self.root_mod or 'codec' in self.root_mod
            if not all(numeric(t) or plain and t[0] in ('sub', 'attr', 'app', 'lin') and not is_seqlike(t) and
                       not is_strlike(t) for _, t in leaves(m.init)):
                continue
            ok = False
            for _, t in leaves(m.next):
                if t is me:
                    continue
                p = poly(t)
                if p.get((me,)) != 1 or any(m in list(self.uniqs_in(leaf(x))) for k in p if k != (me,) for x in k):
                    ok = False
                    break
                ok = True
            if ok:
                out.add(m.key)
        return out

    def derivations(self, L):
        """loop variables that are, at every iteration, one function of another loop variable"""
        out = {}
        for v in L.mus:
            if v.next is None or v.alias is not None or v.init.atom is not None or v.next.atom is not None:
                continue
            for w in L.mus:
                if w is v or w.key in out or w.alias is not None or w.next is None or w.init.atom is not None or \
                        w.next.atom is not None or w.frame is not v.frame:
                    continue
                if w.init.term[0] == 'const' or v.init.term is w.init.term:
                    continue
                hole = T('hole', L.n)
                a = subst(v.init.term, w.init.term, hole)
                b = subst(v.next.term, w.next.term, hole)
                if a is None or b is None or a is v.init.term or b is v.next.term or a is hole:
                    continue
                if noversion(a) == noversion(b) and a[0] != 'uniq' and self.at_head(a, b, L):
                    out[v.key] = (w.key, a if not self.depends(b, L) else b, hole)
                    break
        return out

    def lags(self, L):
        """loop variables that hold what the iteration before computed from its index alone"""
        out = {}
        i = T('idx', L)
        for v in L.mus:
            if v.next is None or v.alias is not None or v.init.atom is not None or v.next.atom is not None:
                continue
            t = v.next.term
            if t[0] != 'sub' or t is v.init.term:
                continue
            a = self.shift(t, i, {(): -1})
            if a is None or a is t or noversion(a) != noversion(v.init.term):
                continue
            if not self.depends(leaf(a), L):
                out[v.key] = (t, i)
        return out

    def shift(self, t, i, p):
        """the read t with the loop index i replaced by the polynomial p, else None"""
        if isinstance(t, MT):
            if t.atom is not None:
                return None
            r = self.shift(t.term, i, p)
            return None if r is None else leaf(r)
        if not isinstance(t, Term) or t[0] in ('const', 'param', 'glob'):
            return t
        if t is i or t[0] == 'lin':
            q = poly(t)
            c = q.pop((i,), 0)
            if any(x is i or self.has(x, i) for k in q for x in k):
                return None
            return unpoly(padd(q, pmul({(): c}, p)))
        if t[0] in ('sub', 'attr'):
            ys = [self.shift(y, i, p) if isinstance(y, (Term, MT)) else y for y in t]
            return None if any(y is None and z is not None for y, z in zip(ys, t)) else T(*ys)
        return None if self.has(t, i) else t

    @staticmethod
    def has(t, i):
        from .mt import occurs
        return occurs(t, i)

    def at_head(self, a, b, L):
        """a, computed before the loop, and b, computed in it, both read the state the next iteration starts from"""
        if isinstance(a, frozenset):
            mine = {x for x in b if isinstance(x, Effect) and self.in_loop(x.loop, L)}
            toks = {x for x in b if isinstance(x, tuple) and len(x) == 3 and x[1] is L}
            vague = {x for x in b if isinstance(x, tuple) and len(x) == 3 and str(x[2]).startswith('v:')}
            late = set()
            for x in toks:
                late |= L.mods.get(x[2], set())
            return late <= mine and {x for x in b - mine - toks - vague} <= a | {('late',)}
        if isinstance(a, MT) or isinstance(b, MT):
            if not (isinstance(a, MT) and isinstance(b, MT)):
                return False
            return a is b or a.atom is None and b.atom is None and self.at_head(a.term, b.term, L)
        if isinstance(a, tuple) and not isinstance(a, Uniq):
            return isinstance(b, tuple) and len(a) == len(b) and all(self.at_head(x, y, L) for x, y in zip(a, b))
        return a is b or a == b

    def one_leaf(self, m):
        return leaves(m)[0][1] if leaves(m) else UNDEF_T

    def flag_values(self, L):
        """x = c0 before; in the loop  x = c1 when P  (P independent of x): afterwards x is c1 iff P ever held."""
        out = {}
        for mu in L.mus:
            if mu.alias is not None or mu.next is None:
                continue
            me = T('uniq', mu)
            lv = leaves(mu.next)
            if len(lv) != 2:
                continue
            other = [(g, t) for g, t in lv if t is not me]
            if len(other) != 1:
                continue
            g, t = other[0]
            if t[0] != 'const' or mu.init.atom is not None or mu.init.term[0] != 'const':
                continue
            if any(u is mu for u in self.uniqs_in(g)):
                continue
            if L.gexit is not FALSE:
                continue
            ex = atom(T('exit', L, g))
            out[mu.key] = ite(ex, leaf(t), mu.init)
        return out

    def depends(self, m, L, seen=None):
        if seen is None:
            seen = set()
        if id(m) in seen:
            return False
        seen.add(id(m))
        if isinstance(m, Uniq):
            if m.alias is not None:
                return self.depends(m.alias, L, seen)
            if m is L:
                return True
            if m.kind == 'mu':
                return self.in_loop(m.loop, L) or self.depends(m.init, L, seen) or \
                    (m.next is not None and self.depends(m.next, L, seen))
            if m.kind in ('res', 'alloc'):
                return m.effect is not None and self.in_loop(m.effect.loop, L) if hasattr(m, 'effect') else \
                    self.in_loop(getattr(m, 'loop', None), L)
            if m.kind in ('newlist', 'newdict', 'newset'):
                return self.in_loop(getattr(m, 'loop', None), L)
            return False
        if isinstance(m, MT):
            for a in atoms_of(m):
                if self.depends(atom_term(a), L, seen):
                    return True
            for _, l in mleaves(m):
                if self.depends(l, L, seen):
                    return True
            return False
        if isinstance(m, frozenset):
            for x in m:
                if isinstance(x, tuple) and not isinstance(x, Term) and len(x) == 3 and x[0] == 'c' and x[1] is L:
                    if x[2] in L.mods:
                        return True
            return False
        if isinstance(m, tuple):
            for x in m:
                if isinstance(x, (Uniq, MT, tuple, frozenset)) and self.depends(x, L, seen):
                    return True
        return False

    def in_loop(self, l, L):
        while l is not None:
            if l is L:
                return True
            l = l.parent
        return False

    def wrap_at(self, L, g, v):
        if v is None or v is UNDEF:
            return v
        if v.atom is None and v.term[0] == 'uniq' and isinstance(v.term[1], (FnVal, GenVal, ClassClosure)):
            return v
        if not self.depends(v, L):
            return v
        rv = restrict(v, g)
        if not self.depends(rv, L):
            return rv
        if rv.atom is None and rv.term[0] == 'tuple':
            return leaf(T('tuple', *[self.as_term(self.wrap_at(L, g, unmt(x)))
                                     for x in rv.term[1:]]))
        return leaf(T('at', L, g, rv))

    def wrap_fin(self, L, v):
        if v is None or v is UNDEF:
            return v
        if v.atom is None and v.term[0] == 'uniq' and isinstance(v.term[1], (FnVal, GenVal, ClassClosure)):
            return v
        if not self.depends(v, L):
            return v
        return leaf(T('last', L, v))

    def as_term(self, m):
        return m.term if m.atom is None else T('mt', m)

    # ---------------------------------------------------------- for loops over values
    def for_over(self, fr, it, bind, body, names, s, orelse=None):
        """Iterate `body` over value `it`; bind(v) assigns the element."""
        # inlined generators: execute the generator with the loop body at each yield
        if it.atom is None and it.term[0] == 'uniq' and isinstance(it.term[1], GenVal):
            gv = it.term[1]
            if orelse is None and not self.has_break(s):
                def ybody(v):
                    bind(v)
                    self.nested_body(fr, body)
                self.consumed(fr, names, lambda ins: gv.run(ins(ybody), (), s))
                return
            it = self.force(it)

        it = self.under(it)
        if it.atom is None and it.term[0] == 'tuple' and len(it.term) <= 5 and orelse is None and \
                not any(isinstance(x, Term) and x[0] == 'splat' for x in it.term[1:]) and not self.has_break(s):
            # a display of a few things, one after the other
            for x in it.term[1:]:
                if self.g is FALSE:
                    break
                bind(unmt(x))
                self.nested_body(fr, body)
            return
        if it.atom is None and it.term[0] == 'const' and isinstance(it.term[1], tuple) and len(it.term[1]) <= 4 and \
                orelse is None and not self.has_break(s):
            for x in it.term[1]:
                if self.g is FALSE:
                    break
                bind(const(x))
                self.nested_body(fr, body)
            return
        if it.atom is not None and any(self.nothing(t) for _, t in leaves(it)):
            c = mapn(lambda t: FALSE if self.nothing(t) else TRUE, it)
            self.branch(fr, c, lambda: self.for_over(fr, it, bind, body, names, s, orelse), orelse or (lambda: None))
            return

        desc, elem = None, None
        L = Uniq('loop', parent=self.loops[-1] if self.loops else None, iter=None, kind2='for', mods={}, ctx=None,
                 line=getattr(s, 'lineno', 0), gexit=FALSE, label='for')
        elem = self.iter_desc(fr, it, L)
        self.something(L)

        def attempt():
            self.loop_common(fr, L, names, body, s, pre=lambda: bind(elem()), orelse=orelse, isfor=True)
        st = self.save()
        snap = self.snap(fr)
        attempt()
        inv = self.invariants(L)
        ind = self.inductions(L)
        der = self.derivations(L)
        acc = self.accumulators(L) - set(ind) - set(inv)
        lag = self.lags(L)
        lk = self.loop_key(s)
        if (inv or ind or der or acc or lag) and lk not in self.invariant and \
                (getattr(s, 'lineno', None) is not None or isinstance(s, ast.comprehension)):
            self.keep.append(s)
            self.invariant[lk] = inv
            self.induct[lk] = ind
            self.derived[lk] = der
            self.accum[lk] = acc
            self.lagged[lk] = lag
            self.load(fr, st)
            self.restore(fr, snap)
            L = Uniq('loop', parent=self.loops[-1] if self.loops else None, iter=None, kind2='for', mods={}, ctx=None,
                     line=getattr(s, 'lineno', 0), gexit=FALSE, label='for')
            elem = self.iter_desc(fr, it, L)
            self.something(L)
            attempt()

    def something(self, L):
        i = L.iter
        if i and i[0] in ('upto', 'seq') and i[1].atom is None:
            c = self.compare('Gt', i[1], const(0)) if i[0] == 'upto' else truth(i[1])
            if c is not TRUE and c is not FALSE:
                L.some = c

    def nothing(self, t):
        """an empty display, or a container nothing was put into"""
        return t == T('const', ()) or t[0] == 'uniq' and t[1].kind in ('newlist', 'newdict', 'newset') and \
            not t[1].__dict__.get('init') and t[1].alias is None and not t[1].__dict__.get('touches') and \
            t[1].loop is (self.loops[-1] if self.loops else None)

    def nested_body(self, fr, body):
        """Run a loop body inside an inlined generator: `continue` ends this item only."""
        L = Uniq('loop', parent=None, iter=None, kind2='once', mods={}, ctx=None, line=0, gexit=FALSE, label='once')
        lc = LoopCtx(L)
        saved_loops = fr.loops
        fr.loops = saved_loops + [lc]
        body()
        fr.loops = saved_loops
        g, env, r = self.g, self.snap(fr), self.reach
        for (cg, cenv, cr) in lc.conts:
            if g is FALSE:
                g, env, r = cg, cenv, cr
            else:
                env = self.merge_env(cg, cenv, env)
                g = OR(g, cg)
                r = self.merge_reach(r, cr)
        self.g = g
        self.restore(fr, env)
        self.reach = r
        if lc.breaks:
            raise Unsupported('break out of inlined generator')
        if lc.rets:
            if saved_loops:
                saved_loops[-1].rets.extend(lc.rets)
            else:
                for gg, v in lc.rets:
                    raise Unsupported('return out of inlined generator')

    def has_break(self, s):
        for n in own_nodes(s) if hasattr(s, 'body') and isinstance(s.body, list) else []:
            if isinstance(n, (ast.Break, ast.Return)):
                return True
        return False

    def iter_desc(self, fr, it, L):
        """Set L.iter and return a function producing the element value."""
        idx = T('idx', L)
        it = self.under(it)
        if it.atom is None:
            t = it.term
            if t[0] == 'app' and t[1] == 'range':
                a, b, c = [self.under(x) for x in self.range_args(t[2])]
                if all(x.atom is None for x in (a, b, c)):
                    self.set_range_iter(L, a.term, b.term, c.term)
                    if c.term[0] == 'const':
                        v = unpoly(padd(poly(a.term), pmul({(): c.term[1]}, {(idx,): 1})))
                    else:
                        v = unpoly(padd(poly(a.term), pmul(poly(c.term), {(idx,): 1})))
                    return lambda: leaf(v)
                if c is const(1) or c is const(-1):
                    n = self.binop('Sub', b, a, 0) if c is const(1) else self.binop('Sub', a, b, 0)
                    L.iter = ('upto', n)
                    if n.atom is None:
                        self.set_range_iter(L, T('const', 0), n.term, T('const', 1))
                else:
                    L.iter = ('range', a, b, c)
                return lambda: mapn(lambda x, y: leaf(unpoly(padd(poly(x), pmul(poly(y), {(idx,): 1})))), a, c)
            if t[0] == 'app' and t[1] == 'enumerate' and t[2]:
                inner = t[2][0]
                start = t[2][1] if len(t[2]) > 1 else const(0)
                el = self.iter_desc(fr, inner, L)
                return lambda: leaf(T('tuple', self.as_term(self.binop('Add', start, leaf(idx), 0)),
                                      self.as_term(el())))
            if t[0] == 'app' and t[1] == 'zip':
                els = []
                iters = []
                for x in t[2]:
                    els.append(self.iter_desc(fr, x, L))
                    iters.append(L.iter)
                # parallel lists of one object have one length
                uniq = []
                for i in iters:
                    if not any(self.same_iter(i, u) for u in uniq):
                        uniq.append(i)
                if len(uniq) > 1:
                    # the shortest of lengths that differ by constants
                    ns = [None if i[1].__class__ is not MT or i[1].atom is not None else
                          i[1].term if i[0] == 'upto' else self.mkapp_len(i[1].term) if i[0] == 'seq' else None for i in uniq]
                    for a in range(len(uniq) - 1, -1, -1):
                        for b in range(len(uniq)):
                            if a != b and ns[a] is not None and ns[b] is not None:
                                d = padd(poly(ns[a]), poly(ns[b]), -1)
                                if not d or list(d) == [()] and is_num(d[()]) and d[()] >= 0:
                                    del uniq[a], ns[a]
                                    break
                L.iter = uniq[0] if len(uniq) == 1 else ('zip',) + tuple(uniq)
                return lambda: leaf(T('tuple', *[self.as_term(e()) for e in els]))
            if t[0] == 'app' and t[1] in ('.items', '.values', '.keys') and len(t) == 4 and len(t[2]) == 1 and \
                    t[2][0].atom is None:
                d = t[2][0]
                el = self.iter_desc(fr, d, L)
                if t[1] == '.keys':
                    return el
                if t[1] == '.values':
                    return lambda: self.sub_read(d, el())

                def pair():
                    k = el()
                    return leaf(T('tuple', self.as_term(k), self.as_term(self.sub_read(d, k))))
                return pair
            if t[0] == 'app' and t[1] == 'reversed' and len(t[2]) == 1 and t[2][0].atom is None:
                x = t[2][0].term
                n = self.mkapp_len(x)
                self.set_range_iter(L, T('const', 0), n, T('const', 1))
                k = unpoly(padd(padd(poly(n), {(): 1}, -1), {(idx,): 1}, -1))
                return lambda: self.sub_read(leaf(x), leaf(k))
            if t[0] == 'app' and t[1] == 'list' and len(t[2]) == 1:
                # iterating a snapshot of X
                if t[2][0].atom is None:
                    pass
            if t[0] == 'tuple':
                L.iter = ('lit', it)
                return lambda: leaf(T('sub', t, idx, frozenset()))
            if t[0] == 'slice_of':
                base, sl = t[1], t[2]
                a, b, c = sl[1], sl[2], sl[3]
                if c.atom is None and c.term is NONE_T and b.atom is None and b.term is NONE_T and a.atom is None:
                    at = a.term if a.term is not NONE_T else T('const', 0)
                    if not (at[0] == 'const' and is_num(at[1]) and at[1] < 0):
                        ln = self.mkapp_len(base)
                        self.set_range_iter(L, at, ln, T('const', 1))
                        v = unpoly(padd(poly(at), {(idx,): 1}))
                        return lambda: self.sub_read(leaf(base), leaf(v))
                if a is NONE and b is NONE and c is const(-1):
                    return self.iter_desc(fr, leaf(T('app', 'reversed', (leaf(base),), frozenset())), L)
        if it.atom is not None and it.nl <= 8:
            els, iters = {}, []
            for _, x in leaves(it):
                els[x] = self.iter_desc(fr, leaf(x), L)
                iters.append(L.iter)
            if all(self.same_iter(i, iters[0]) for i in iters):
                return lambda: mapn(lambda x: els[x](), it)
            if all(i[0] in ('upto', 'seq') and i[1].atom is None for i in iters):
                n = {x: i[1] if i[0] == 'upto' else leaf(self.mkapp_len(i[1].term)) for x, i in zip(els, iters)}
                L.iter = ('upto', mapn(lambda x: n[x], it))
                return lambda: mapn(lambda x: els[x](), it)
        L.iter = ('seq', self.pair_canon(it))
        return lambda: self.sub_read(it, leaf(idx))

    def under(self, m):
        """m as seen where it is used: without the alternatives the path condition rules out"""
        if m.atom is None:
            return m
        fg = self.full_guard()
        return m if fg is TRUE or fg is FALSE else restrict(m, fg)

    def same_iter(self, a, b):
        return len(a) == len(b) and all(x is y or x == y if not isinstance(x, MT) else x is y for x, y in zip(a, b))

    def mkapp_len(self, base):
        while base[0] == 'app' and base[1] in ('sorted', 'reversed', 'list', 'tuple') and len(base) == 4 and len(base[2]) == 1 and \
                isinstance(base[2][0], MT) and base[2][0].atom is None:
            base = base[2][0].term
        n = self.length(base)
        if n is not None:
            return n
        r = T('app', 'len', (self.pair_canon(leaf(base)),), self.ver({self.region_t(base)}))
        k, es = self.longer(base) if base[0] in ('attr', 'sub') else (None, None)
        if k is not None and k.atom is None:
            return unpoly(padd(poly(T(*r[:3], r[3] - es)), poly(k.term)))
        return r

    def length(self, t, d=0):
        """the number of elements of t where the way t was made tells"""
        if t[0] == 'slice_of' and t[2][0] == 'slice' and t[2][2] is NONE and t[2][3] is NONE and t[2][1].atom is None and \
                t[2][1].term[0] == 'const' and is_num(t[2][1].term[1]) and t[2][1].term[1] > 0 and d < 4:
            k = t[2][1].term[1]
            n = self.mkapp_len(t[1])
            few = OR(NOT(truth(leaf(t[1]))) if k == 1 else cmp3(n, T('const', k))[0], FALSE)
            fg = self.full_guard()
            if AND(fg, few) is FALSE or AND(fg, cmp3(n, T('const', k))[0]) is FALSE:
                return unpoly(padd(poly(n), {(): -k}))
        if t[0] == 'tuple' and not any(isinstance(x, Term) and x[0] == 'splat' for x in t[1:]):
            return T('const', len(t) - 1)
        if t[0] == 'const' and isinstance(t[1], (str, tuple)):
            return T('const', len(t[1]))
        if t[0] == 'app' and t[1] == 'range' and len(t) == 4:
            a, b, c = self.range_args(t[2])
            if a is const(0) and c is const(1) and b.atom is None and integral(b.term):
                return b.term
        if t[0] == 'app' and t[1] in ('enumerate', 'reversed', 'tuple', 'list') and len(t) == 4 and t[2] and d < 4:
            x = t[2][0]
            if isinstance(x, MT) and x.atom is None:
                return self.length(x.term, d + 1)
        if t[0] == 'uniq' and t[1].kind == 'newlist' and t[1].alias is None and d < 4:
            u = t[1]
            if any(L is not u.loop and not self.in_loop(u.loop, L) for L in self.loops):
                return None
            ts = [e for e in u.__dict__.get('touches', ()) if e.kind != 'setitem']
            if any(e.guard is not u.ga for e in ts) and len(ts) < 6 and not any(e.loop is not u.loop for e in ts):
                fg = self.full_guard()
                ts = [e for e in ts if AND(fg, e.guard) is not FALSE]
            if any(e.kind != 'm' or e.callee != 'append' or e.guard is not u.ga for e in ts):
                return None
            if len(ts) == 1 and ts[0].loop is not u.loop:
                L = ts[0].loop
                if L is None or L.parent is not u.loop or L.gexit is not FALSE or L in self.loops or L.iter is None or \
                        L.kind2 != 'for':
                    return None
                if L.iter[0] == 'upto' and L.iter[1].atom is None:
                    return L.iter[1].term
                if L.iter[0] == 'lit' and L.iter[1].atom is None:
                    return self.length(L.iter[1].term, d + 1)
                if L.iter[0] == 'seq' and L.iter[1].atom is None:
                    return self.length(L.iter[1].term, d + 1)
                return None
            if all(e.loop is u.loop for e in ts):
                return T('const', len(ts))
        return None

    def range_args(self, args):
        if len(args) == 1:
            return const(0), args[0], const(1)
        if len(args) == 2:
            return args[0], args[1], const(1)
        return args[0], args[1], args[2]

    def sub_read(self, b, k):
        if k.atom is not None and b.atom is None and k.nl <= 6 and b.term[0] in ('attr', 'sub'):
            es = self.stores(self.region_t(b.term))
            if es and es[0] is not None and any(e is not None and e.kind == 'setitem' for e in es):
                # each key where it is the one
                g0, r = self.g, None
                for c, kt in leaves(k):
                    self.g = AND(g0, c)
                    if AND(self.outer, self.g) is FALSE:
                        continue
                    v = self.sub_read(b, leaf(kt))
                    r = v if r is None else ite(c, v, r)
                self.g = g0
                if r is not None:
                    return r

        def f(bt, kt):
            if bt[0] == 'mt':
                return self.sub_read(bt[1], leaf(kt))
            if bt[0] == 'tuple' and kt[0] == 'const' and isinstance(kt[1], int) and -len(bt) + 1 <= kt[1] < len(bt) - 1:
                return unmt(bt[1:][kt[1]])
            if bt[0] == 'const' and isinstance(bt[1], (tuple, str)) and kt[0] == 'const' and isinstance(kt[1], int):
                try:
                    return const(bt[1][kt[1]])
                except IndexError:
                    pass
            if bt[0] == 'uniq' and bt[1].kind == 'newlist' and kt[0] == 'const' and isinstance(kt[1], int) and \
                    bt[1].alias is None and bt[1].loop is (self.loops[-1] if self.loops else None):
                ts = bt[1].__dict__.get('touches', ())
                if ts and -len(ts) <= kt[1] < len(ts) and all(e.kind == 'm' and e.callee == 'append' and len(e.args) == 2 and
                                                              e.loop is bt[1].loop and e.guard is bt[1].ga for e in ts):
                    return ts[kt[1]].args[1]
            if bt[0] == 'slice_of' and kt[0] != 'slice':
                a, bb, c = bt[2][1], bt[2][2], bt[2][3]
                if c is NONE and a.atom is None and numeric(kt) and \
                        (a is NONE or not (a.term[0] == 'const' and is_num(a.term[1]) and a.term[1] < 0)):
                    at = T('const', 0) if a is NONE else a.term
                    if not (kt[0] == 'const' and is_num(kt[1]) and kt[1] < 0):
                        nk = unpoly(padd(poly(at), poly(kt)))
                        return leaf(T('sub', bt[1], nk, self.ver({self.region_t(bt[1])})))
            # len(X) - 1 is -1
            p = poly(kt)
            if kt[0] == 'lin' and len(p) == 2 and () in p and p[()] < 0:
                (mk,) = [x for x in p if x != ()]
                if p[mk] == 1 and len(mk) == 1 and mk[0][0] == 'app' and mk[0][1] == 'len':
                    lb = mk[0][2][0]
                    if self.pair_canon(leaf(bt)) is lb:
                        kt = T('const', p[()])
            ver = frozenset() if bt[0] == 'tuple' else self.ver({self.region_t(bt)})
            old = T('sub', bt, kt, ver)
            if bt[0] in ('attr', 'sub', 'param', 'uniq'):
                fw = self.forward(bt, kt, old)
                if fw is not None:
                    return fw
            return leaf(old)
        return mapn(f, b, k)

    # ------------------------------------------------------------ generators
    def force(self, v):
        """Turn un-consumed generators into lists."""
        if v is None:
            return v
        if v.atom is None:
            t = v.term
            if t[0] == 'uniq' and isinstance(t[1], GenVal):
                return self.to_list(None, v, 0)
            return v
        if any(t[0] == 'uniq' and isinstance(t[1], GenVal) for _, t in leaves(v)):
            done = {}
            g0 = self.g
            for c, t in leaves(v):
                if t[0] == 'uniq' and isinstance(t[1], GenVal):
                    self.g = AND(g0, c)
                    done[id(t)] = self.to_list(None, leaf(t), 0) if self.g is not FALSE else UNDEF
                    self.g = g0
            return mapn(lambda t: done[id(t)] if id(t) in done else leaf(t), v)
        return v

    def newnode(self, kind, **kw):
        return Uniq(kind, loop=self.loops[-1] if self.loops else None, ga=AND(self.outer, self.g), **kw)

    def to_list(self, fr, v, line):
        nl = self.newnode('newlist', init=())
        lt = leaf(T('uniq', nl))
        reg = {'l:%d' % nl.n}
        self.consume(fr, v, lambda x: self.emit('m', [lt, self.escape(x)], mods=reg, callee='append', line=line), line)
        return lt

    def consume(self, fr, v, body, line, names=()):
        """run body(value) for each element of iterable value v"""
        if v.atom is None and v.term[0] == 'uniq' and isinstance(v.term[1], GenVal):
            if fr is None:
                v.term[1].run(body)
            else:
                self.consumed(fr, names, lambda ins: v.term[1].run(ins(body)))
            return
        if v.atom is None and v.term[0] == 'tuple':
            for x in v.term[1:]:
                body(unmt(x))
            return
        f = fr or Frame(None, None)
        holder = {}
        self.for_over(f, v, lambda x: holder.__setitem__('v', x), lambda: body(holder['v']), set(names),
                      _Anon())

    def s_yield(self, fr, v, line):
        self.do_yield(fr, v, line)

    def do_yield(self, fr, v, line):
        f = fr
        if f.ybody is not None:
            f.ybody(v)
            return NONE
        self.emit('yield', [self.escape(v)], mods={'*'}, line=line)
        return NONE

    # ------------------------------------------------------------ expressions
    def ev(self, fr, n):
        self.nsteps += 1
        if self.nsteps > 120000:
            raise Unsupported('too large')
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression ' + type(n).__name__)
        v = m(fr, n)
        if v.nl > 400:
            self.flags.append('large value')
            v = leaf(T('mt', v))
        return v

    def e_Constant(self, fr, n):
        return const(n.value)

    def e_NamedExpr(self, fr, n):
        v = self.ev(fr, n.value)
        self.assign(fr, n.target, v, n.lineno)
        return v

    def lookup(self, fr, name):
        f = fr
        while f is not None:
            if name in f.env:
                return f.env[name]
            f = f.parent
        return None

    def e_Name(self, fr, n):
        v = self.lookup(fr, n.id)
        if v is not None:
            d = fr.env.get('?' + n.id)
            if d is not None and AND(self.g, NOT(d)) is not FALSE:
                self.undefs.append((AND(self.g, NOT(d)), n.id, n.lineno))
            return v
        mod = fr.mod
        f = fr
        while mod is None and f is not None:
            mod = f.mod
            f = f.parent
        if mod is not None and n.id in mod.names:
            x = mod.names[n.id]
            if isinstance(x, Func):
                return leaf(T('glob', x.qual, 'func'))
            if x[0] == 'class':
                return leaf(T('glob', x[1], 'class'))
            if x[0] == 'mod':
                return leaf(T('glob', x[1], 'mod'))
            if x[0] == 'sym':
                return self.symbol(x[2], x[1])
            if x[0] == 'const':
                try:
                    val = ast.literal_eval(x[1])
                    if isinstance(val, (int, float, str, bool, tuple, type(None))):
                        return const(val)
                except Exception:
                    pass
                return leaf(T('glob', mod.short + '.' + n.id, 'var'))
            return leaf(T('glob', mod.short + '.' + n.id, 'var'))
        if n.id not in BUILTINS:
            self.undefs.append((self.g, n.id, n.lineno))
        return leaf(T('glob', n.id, 'builtin'))

    def symbol(self, name, module):
        short = module.split('.')[-1]
        m = self.prog.mods.get(short)
        if m is not None and name in m.names:
            x = m.names[name]
            if isinstance(x, Func):
                return leaf(T('glob', x.qual, 'func'))
            if isinstance(x, tuple) and x[0] == 'class':
                return leaf(T('glob', name, 'class'))
            if isinstance(x, tuple) and x[0] == 'const':
                try:
                    val = ast.literal_eval(x[1])
                    if isinstance(val, (int, float, str, bool, tuple, type(None))):
                        return const(val)
                except Exception:
                    pass
                v = self.display(x[1], m)
                if v is not None:
                    return v
            return leaf(T('glob', short + '.' + name, 'var'))
        if name in self.prog.classes:
            return leaf(T('glob', name, 'class'))
        if name in self.prog.mods:
            return leaf(T('glob', name, 'mod'))
        return leaf(T('glob', (module + '.' if module else '') + name, 'ext'))

    def display(self, n, mod):
        """the value of a constant tuple of names written down at module or class level"""
        if isinstance(n, ast.Tuple) and all(isinstance(e, (ast.Name, ast.Constant)) for e in n.elts):
            fr = Frame(mod, None)
            return self.ev(fr, n)
        return None

    def e_Tuple(self, fr, n):
        if any(isinstance(e, ast.Starred) and isinstance(e.value, (ast.GeneratorExp, ast.ListComp)) for e in n.elts):
            # (a, *(f(x) for x in y))  is  tuple([a, *...])
            return self.pure_app('tuple', [self.e_List(fr, n)], {})
        if any(isinstance(e, ast.Starred) for e in n.elts):
            parts = []
            cur = []
            for e in n.elts:
                if isinstance(e, ast.Starred):
                    v = self.force(self.ev(fr, e.value))
                    if v.atom is None and v.term[0] == 'tuple':
                        cur.extend(v.term[1:])
                        continue
                    # a value known to be a pair-producing call: keep the projections
                    parts.append(T('tuple', *cur))
                    cur = []
                    parts.append(T('splat', self.as_term(v)))
                else:
                    cur.append(self.as_term(self.escape(self.ev(fr, e))))
            if not parts:
                return leaf(T('tuple', *cur))
            parts.append(T('tuple', *cur))
            return leaf(T('concat', *[p for p in parts if p != T('tuple') and len(p) > 1]))
        vals = [self.escape(self.ev(fr, e)) for e in n.elts]
        if all(v.atom is None and v.term[0] == 'const' for v in vals):
            return const(tuple(v.term[1] for v in vals))
        return leaf(repacked(T('tuple', *[self.as_term(v) for v in vals]), self.unpacked))

    def e_List(self, fr, n):
        nl = self.newnode('newlist', init=())
        lt = leaf(T('uniq', nl))
        reg = {'l:%d' % nl.n}
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.ev(fr, e.value)
                self.consume(fr, v, lambda x: self.emit('m', [lt, self.escape(x)], mods=reg, callee='append',
                                                        line=n.lineno), n.lineno)
            else:
                x = self.escape(self.ev(fr, e))
                self.emit('m', [lt, x], mods=reg, callee='append', line=n.lineno)
        return lt

    def e_Set(self, fr, n):
        nl = self.newnode('newset', init=())
        lt = leaf(T('uniq', nl))
        for e in n.elts:
            self.emit('m', [lt, self.escape(self.ev(fr, e))], mods={'l:%d' % nl.n}, callee='add', line=n.lineno)
        return lt

    def e_Dict(self, fr, n):
        nl = self.newnode('newdict', init=())
        lt = leaf(T('uniq', nl))
        for k, v in zip(n.keys, n.values):
            if k is None:
                x = self.ev(fr, v)
                self.emit('m', [lt, self.escape(x)], mods={'l:%d' % nl.n}, callee='update', line=n.lineno)
                continue
            kk = self.escape(self.ev(fr, k))
            self.emit('setitem', [lt, kk, self.escape(self.ev(fr, v))], mods={'l:%d' % nl.n}, line=n.lineno)
        return lt

    def e_JoinedStr(self, fr, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.escape(self.ev(fr, v.value))
                if v.format_spec is not None or v.conversion not in (-1, 115):
                    spec = self.ev(fr, v.format_spec) if v.format_spec is not None else const('')
                    parts.append(self.lift('fmtspec', [x, spec, const(v.conversion)]))
                else:
                    parts.append(self.str_of(x))
        return self.fmt_of(parts)

    def fmt_of(self, parts):
        if not parts:
            return const('')
        tot = 1
        for p in parts:
            tot *= max(1, p.nl)
        if tot > MAXLEAF:
            return leaf(mkfmt([self.as_term(p) for p in parts]))
        return mapn(lambda *ts: leaf(mkfmt(list(ts))), *parts)

    def fmt_template(self, text, args, kw):
        """text.format(*args, **kw) as the f-string it stands for; None if it is not that simple"""
        parts, auto = [], 0
        try:
            fields = list(string.Formatter().parse(text))
        except ValueError:
            return None
        for lit, name, spec, conv in fields:
            if lit:
                parts.append(const(lit))
            if name is None:
                continue
            if name == '':
                name, auto = str(auto), auto + 1
            if name.isdigit():
                if int(name) >= len(args):
                    return None
                x = args[int(name)]
            elif name in kw:
                x = kw[name]
            else:
                return None
            if spec and '{' in spec:
                return None
            x = self.escape(x)
            if spec or conv not in (None, 's'):
                parts.append(self.lift('fmtspec', [x, const(spec or ''), const(ord(conv) if conv else -1)]))
            else:
                parts.append(self.str_of(x))
        return self.fmt_of(parts)

    def pct_template(self, text, x):
        """'..%s..' % x  likewise"""
        bits = re.split(r'%(.)', text)
        kinds = bits[1::2]
        if any(k not in 's%' for k in kinds):
            return None
        n = kinds.count('s')
        xs = None
        if x.atom is None and x.term[0] == 'tuple':
            xs = [leaf(t) for t in x.term[1:]]
            if any(t[0] in ('box', 'mt') for t in x.term[1:]):
                return None
        elif n == 1 and all(is_strlike(t) or numeric(t) for _, t in leaves(x)):
            xs = [x]
        if xs is None or len(xs) != n:
            return None
        parts, xs = [], iter(xs)
        for i, b in enumerate(bits):
            if i % 2 == 0:
                if b:
                    parts.append(const(b))
            else:
                parts.append(const('%') if b == '%' else self.str_of(next(xs)))
        return self.fmt_of(parts)

    def str_of(self, m):
        def f(t):
            if t[0] == 'const':
                return const(str(t[1]))
            if is_strlike(t):
                return leaf(t)
            return leaf(T('app', 'str', (leaf(t),), frozenset()))
        return mapn(f, m)

    def e_Lambda(self, fr, n):
        b = n.body
        if isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and len(b.args) == 1 and not b.keywords and \
                len(n.args.args) == 1 and isinstance(b.args[0], ast.Name) and b.args[0].id == n.args.args[0].arg and \
                not (n.args.posonlyargs or n.args.kwonlyargs or n.args.vararg or n.args.kwarg or n.args.defaults) and \
                b.func.id in PURE_BUILTINS and b.func.id != b.args[0].id:
            # lambda x: sum(x)  is  sum
            f = self.e_Name(fr, b.func)
            if f is leaf(T('glob', b.func.id, 'builtin')):
                return f
        return leaf(T('uniq', FnVal(n, fr)))

    def e_IfExp(self, fr, n):
        c = truth(self.ev(fr, n.test))
        if c is TRUE:
            return self.ev(fr, n.body)
        if c is FALSE:
            return self.ev(fr, n.orelse)
        out = {}

        def side(k, e):
            out[k] = self.escape_gen(self.ev(fr, e)) if self.g is not FALSE else UNDEF
        self.branch(fr, c, lambda: side('a', n.body), lambda: side('b', n.orelse))
        return self.mite(c, out.get('a', UNDEF), out.get('b', UNDEF))

    def escape_gen(self, v):
        return self.force(v)

    def e_BoolOp(self, fr, n):
        g0 = self.g
        isand = isinstance(n.op, ast.And)
        val = None
        cond = TRUE
        res = None
        acc = []
        for i, e in enumerate(n.values):
            if self.g is FALSE:
                break
            v = self.force(self.ev(fr, e))
            t = truth(v)
            acc.append((v, t))
            self.g = AND(self.g, t if isand else NOT(t))
        self.g = g0
        v, t = acc[-1]
        res = v
        for v, t in reversed(acc[:-1]):
            res = ite(t, res, v) if isand else ite(t, v, res)
        return res

    def e_UnaryOp(self, fr, n):
        v = self.force(self.ev(fr, n.operand))
        if isinstance(n.op, ast.Not):
            return NOT(truth(v))
        if isinstance(n.op, ast.USub):
            return mapn(lambda t: leaf(unpoly({k: -c for k, c in poly(t).items()})), v)
        if isinstance(n.op, ast.UAdd):
            return v
        return self.lift('invert', [v])

    def e_BinOp(self, fr, n):
        if isinstance(n.op, ast.Mult):
            for l, c in ((n.left, n.right), (n.right, n.left)):
                if isinstance(l, ast.List) and len(l.elts) == 1 and isinstance(l.elts[0], (ast.Constant, ast.Name)):
                    # [c] * n  is  [c for _ in range(n)]
                    v = self.escape(self.ev(fr, l.elts[0]))
                    k = self.force(self.ev(fr, c))
                    nl = self.newnode('newlist', init=())
                    lt = leaf(T('uniq', nl))
                    self.consume(fr, leaf(T('app', 'range', (const(0), k, const(1)), frozenset())),
                                 lambda x: self.emit('m', [lt, v], mods={'l:%d' % nl.n}, callee='append', line=n.lineno),
                                 n.lineno)
                    return lt
        if isinstance(n.op, ast.Add) and isinstance(n.left, (ast.List, ast.ListComp)) and \
                isinstance(n.right, (ast.List, ast.ListComp)):
            # [..] + [..]  is one list display
            elts = []
            for x in (n.left, n.right):
                if isinstance(x, ast.List):
                    elts.extend(x.elts)
                else:
                    ge = self.as_gen.get(id(x))
                    if ge is None:
                        ge = self.as_gen[id(x)] = ast.copy_location(ast.GeneratorExp(elt=x.elt, generators=x.generators), x)
                        self.keep.append(x)
                    elts.append(ast.copy_location(ast.Starred(value=ge, ctx=ast.Load()), x))
            return self.e_List(fr, ast.copy_location(ast.List(elts=elts, ctx=ast.Load()), n))
        a = self.force(self.ev(fr, n.left))
        b = self.force(self.ev(fr, n.right))
        if isinstance(n.op, ast.Mod) and a.atom is None and a.term[0] == 'const' and isinstance(a.term[1], str):
            r = self.pct_template(a.term[1], b)
            if r is not None:
                return r
        return self.binop(type(n.op).__name__, a, b, n.lineno)

    def binop(self, op, a, b, line):
        if op in ('LShift', 'BitAnd', 'BitOr', 'BitXor'):
            if all(numeric(x) for _, x in leaves(a)) and all(numeric(x) for _, x in leaves(b)):
                return self.lift(op, [a, b])
            return self.known_method_call(BINOPS[op], a, [b], {}, line)
        if a.nl * b.nl > MAXLEAF:
            return leaf(T('bin', op, a, b))

        def f(x, y):
            t = self.binop_t(op, x, y)
            if t[0] == 'concat':
                ms = [unmt(p[1]) for p in t[1:] if p[0] == 'elt' and p[1][0] == 'mt']
                if ms and 1 < sum(m.nl for m in ms) <= 6:
                    # one of several things added
                    def g(*xs):
                        it = iter(xs)
                        return leaf(T('concat', *[T('elt', next(it)) if p[0] == 'elt' and p[1][0] == 'mt' else p for p in t[1:]]))
                    return mapn(g, *ms)
            return leaf(t)
        return mapn(f, a, b)

    def binop_t(self, op, x, y):
        cx = x[0] == 'const' and is_num(x[1])
        cy = y[0] == 'const' and is_num(y[1])
        if op == 'Add':
            if is_strlike(x) or is_strlike(y):
                return mkfmt([x if is_strlike(x) else x, y])
            if is_seqlike(x) or is_seqlike(y):
                if x[0] == 'tuple' and y[0] == 'tuple':
                    return T('tuple', *(x[1:] + y[1:]))
                return T('concat', *self.parts_of(x), *self.parts_of(y))
            return unpoly(padd(poly(x), poly(y)))
        if op == 'Sub':
            return unpoly(padd(poly(x), poly(y), -1))
        if op == 'Mult':
            if is_seqlike(x):
                return T('rep', x, y)
            if is_seqlike(y):
                return T('rep', y, x)
            px, py = poly(x), poly(y)
            if len(px) * len(py) <= 16:
                return unpoly(pmul(px, py))
            return T('mul', x, y)
        if op == 'FloorDiv':
            if cx and cy and y[1] != 0:
                return T('const', x[1] // y[1])
            return T('fdiv', x, y)
        if op == 'Mod':
            if x[0] == 'const' and isinstance(x[1], str):
                return T('pct', x, y)
            if cx and cy and y[1] != 0:
                return T('const', x[1] % y[1])
            return unpoly(padd(poly(x), pmul(poly(y), {(T('fdiv', x, y),): 1}), -1))
        if op == 'Div':
            if cx and cy and y[1] != 0:
                return T('const', x[1] / y[1])
            return T('div', x, y)
        if op == 'Pow':
            if cx and cy:
                try:
                    return T('const', x[1] ** y[1])
                except Exception:
                    pass
            return T('pow', x, y)
        return T('bin', op, x, y)

    def parts_of(self, x):
        """what x adds to a concatenation: the elements of a display one by one"""
        if x[0] == 'concat':
            return x[1:]
        if x[0] == 'uniq' and x[1].kind == 'newlist' and x[1].alias is None and \
                x[1].loop is (self.loops[-1] if self.loops else None):
            ts = x[1].__dict__.get('touches', ())
            if ts and len(ts) < 6 and all(e.kind == 'm' and e.callee == 'append' and len(e.args) == 2 and
                                          e.loop is x[1].loop and e.guard is x[1].ga for e in ts):
                return tuple(T('elt', self.as_term(e.args[1])) for e in ts)
        return (x,)

    def lift(self, op, ms):
        tot = 1
        for m in ms:
            tot *= m.nl
        if tot > MAXLEAF:
            return leaf(T(op, *[self.as_term(m) for m in ms]))
        return mapn(lambda *ts: leaf(T(op, *ts)), *ms)

    def e_Compare(self, fr, n):
        left = self.force(self.ev(fr, n.left))
        res = TRUE
        g0 = self.g
        for op, c in zip(n.ops, n.comparators):
            # literal containers on the right of `in`
            if isinstance(op, (ast.In, ast.NotIn)) and isinstance(c, (ast.Tuple, ast.List, ast.Set)) and \
                    not any(isinstance(e, ast.Starred) for e in c.elts):
                r = FALSE
                for e in c.elts:
                    r = OR(r, self.compare('Eq', left, self.ev(fr, e)))
                if isinstance(op, ast.NotIn):
                    r = NOT(r)
                right = left
            else:
                right = self.force(self.ev(fr, c))
                r = self.compare(type(op).__name__, left, right)
            res = AND(res, r)
            left = right
        return res

    def compare(self, op, a, b):
        if a.nl * b.nl > MAXLEAF * 2:
            return atom(T('cmp', op, a, b))

        def elems(t):
            if t[0] == 'tuple' and not any(isinstance(e, Term) and e[0] == 'splat' for e in t[1:]):
                return [unmt(e) for e in t[1:]]
            if t[0] == 'const' and isinstance(t[1], tuple):
                return [const(e) for e in t[1]]
            return None

        def f(x, y):
            if op in ('Eq', 'NotEq', 'Lt', 'Gt', 'LtE', 'GtE') and x[0] in ('tuple', 'const') and y[0] in ('tuple', 'const'):
                xs, ys = elems(x), elems(y)
                if xs is not None and ys is not None and len(xs) == len(ys) and 0 < len(xs) <= 3:
                    # item by item
                    r = TRUE if op in ('Eq', 'NotEq', 'LtE', 'GtE') else FALSE
                    for p, q in zip(reversed(xs), reversed(ys)):
                        e = self.compare('Eq', p, q)
                        if op in ('Eq', 'NotEq'):
                            r = AND(e, r)
                        else:
                            r = OR(self.compare(op[:2], p, q), AND(e, r))
                    return NOT(r) if op == 'NotEq' else r
            if op in ('Is', 'IsNot'):
                r = self.is_t(x, y)
                return NOT(r) if op == 'IsNot' else r
            if op in ('Eq', 'NotEq'):
                if x[0] == 'app' and x[1] == 'id' and y[0] == 'app' and y[1] == 'id':
                    r = self.compare('Is', x[2][0], y[2][0])
                elif x is NONE_T or y is NONE_T or (x[0] == 'const' and isinstance(x[1], bool)) or \
                        (y[0] == 'const' and isinstance(y[1], bool)):
                    r = self.is_t(x, y)
                else:
                    r = cmp3(x, y)[1]
                return NOT(r) if op == 'NotEq' else r
            if op in ('In', 'NotIn'):
                if y[0] == 'const' and isinstance(y[1], (tuple,)):
                    r = FALSE
                    for e in y[1]:
                        r = OR(r, cmp3(x, T('const', e))[1])
                elif y[0] == 'tuple':
                    r = FALSE
                    for e in y[1:]:
                        r = OR(r, self.compare('Eq', leaf(x), unmt(e)))
                elif self.nothing(y):
                    r = FALSE
                else:
                    if y[0] == 'app' and y[1] == '.keys':
                        y = y[2][0].term if y[2][0].atom is None else y
                    r = atom(T('in', x, y, self.ver({self.region_t(y)})))
                return NOT(r) if op == 'NotIn' else r
            for p, q, o in ((x, y, op), (y, x, MIRROR.get(op))):
                # max(a, b) < c  is  a < c and b < c, and the like
                if p[0] == 'app' and p[1] in ('min', 'max') and len(p) == 4 and len(p[2]) == 2 and \
                        o in ('Lt', 'LtE', 'Gt', 'GtE') and q[0] == 'const' and is_num(q[1]):
                    c, d = self.compare(o, p[2][0], leaf(q)), self.compare(o, p[2][1], leaf(q))
                    return AND(c, d) if (p[1] == 'max') == (o in ('Lt', 'LtE')) else OR(c, d)
            lt, eq, gt = cmp3(x, y)
            if op == 'Lt':
                return lt
            if op == 'Gt':
                return gt
            if op == 'LtE':
                return NOT(gt) if self.total(x, y) else OR(lt, eq)
            if op == 'GtE':
                return NOT(lt) if self.total(x, y) else OR(gt, eq)
            raise Unsupported('compare ' + op)
        return mapn(f, a, b)

    def total(self, x, y):
        return True

    def gives(self, t):
        """the outcome of a function of the reference that never returns None"""
        nm = t[1] if t[0] == 'app' else t[1].effect.callee if t[0] == 'uniq' and t[1].kind == 'res' else None
        if not isinstance(nm, str):
            return False
        r = self.given.get(nm)
        if r is None:
            fs = [f for f in self.prog.by_name.get(nm[1:], ())] if nm.startswith('.') else \
                [self.prog.funcs[nm]] if nm in self.prog.funcs else []
            r = self.given[nm] = bool(fs) and all(f.qual in self.known and never_none(f) for f in fs)
        return r

    def is_t(self, x, y):
        if x is y:
            return TRUE
        if x[0] == 'const' and y[0] == 'const':
            return const(x[1] is y[1] or (type(x[1]) == type(y[1]) and x[1] == y[1]))
        if x is NONE_T or y is NONE_T:
            o = y if x is NONE_T else x
            if nonnull(o) or self.gives(o):
                return FALSE
            if o[0] == 'sub' and o[1][0] == 'attr' and self.prog.full_items(o[1][2]):
                return FALSE
            return eqk(o, NONE_T)
        for p, q in ((x, y), (y, x)):
            if p[0] == 'const' and isinstance(p[1], bool):
                tq = truth_t(q)
                if q[0] == 'const':
                    return FALSE
                return tq if p[1] else NOT(tq)
        # type(x) is Y
        k = tuple(sorted((x, y), key=id))
        return atom(T('is', *k))

    # ---------------------------------------------------------- attributes / subscripts
    def e_Attribute(self, fr, n):
        b = self.force(self.ev(fr, n.value))
        return self.attr(fr, b, n.attr)

    def attr(self, fr, b, name):
        def f(t):
            if t[0] == 'selfcc':
                cc = t[1]
                if name in cc.attrs and name not in cc.attrs_written:
                    v = cc.attrs[name]
                    if v.atom is None and v.term[0] == 'uniq' and isinstance(v.term[1], FnVal):
                        return leaf(T('uniq', BoundMethod(v.term[1], leaf(t))))
                    return v
                if name in cc.captured:
                    return self.force(self.lookup(cc.defframe, cc.captured[name]))
                if name in cc.methods:
                    m = cc.methods[name]
                    return leaf(T('uniq', m if m.static else BoundMethod(m, leaf(t))))
            if t[0] == 'uniq' and isinstance(t[1], ClassClosure) and name in t[1].methods and t[1].methods[name].static:
                return leaf(T('uniq', t[1].methods[name]))
            if t[0] == 'glob' and len(t) > 2 and t[2] == 'mod':
                m = self.prog.mods.get(t[1].split('.')[-1])
                if m is not None and name in m.names:
                    return self.symbol(name, t[1])
                return leaf(T('glob', t[1] + '.' + name, 'ext'))
            if t[0] == 'glob' and len(t) > 2 and t[2] == 'ext':
                return leaf(T('glob', t[1] + '.' + name, 'ext'))
            if t[0] == 'uniq' and isinstance(t[1], ClassClosure) and name in t[1].attrs:
                return t[1].attrs[name]
            if t[0] == 'app' and isinstance(t[1], str) and t[1] == 'ctor:CoordPayload' and len(t[2]) == 2:
                if name == 'coord':
                    return t[2][0]
                if name == 'payload':
                    return t[2][1]
            # class-level constants that are not in the reference (hoisted literals)
            cls = None
            if t[0] == 'param' and t[1] == 0 and self.root.cls and self.root.kind in ('method', 'class'):
                cls = self.root.cls
            elif t[0] == 'glob' and len(t) > 2 and t[2] == 'class':
                cls = t[1]
            if cls in self.prog.classes:
                c = self.prog.classes[cls]
                if name in c.attrs and self.attr_is_const(name):
                    try:
                        val = ast.literal_eval(c.attrs[name])
                        if isinstance(val, (int, float, str, bool, tuple, type(None))):
                            return const(val)
                    except Exception:
                        pass
                    v = self.display(c.attrs[name], c.mod)
                    if v is not None:
                        return v
                if cls in self.prog.classes:
                    mth = self.prog.find_method(cls, name)
                    if mth is not None and mth.kind == 'prop' and (mth.qual not in self.known):
                        return self.inline_func(mth, [leaf(t)], {}, 0)
                    if mth is not None and mth.kind == 'static' and mth.qual not in self.known and t[0] == 'glob':
                        return leaf(T('glob', mth.qual, 'func'))
                    if mth is not None and mth.kind == 'method' and mth.qual not in self.known and t[0] == 'param' and \
                            mth.qual not in self.stack and not mth.node.args.posonlyargs and mth.node.args.args:
                        if (mth.qual, t) not in self.handed:
                            own = Frame(mth.mod, mth.cls, func=mth)
                            own.env[mth.node.args.args[0].arg] = leaf(t)
                            n = copy.copy(mth.node)
                            n.args = copy.copy(n.args)
                            n.args.args = n.args.args[1:]
                            self.handed[mth.qual, t] = FnVal(n, own)
                        return leaf(T('uniq', self.handed[mth.qual, t]))
            # store-to-load forwarding
            r = self.reach.get('a:' + name)
            star = self.reach.get('*')
            if r is not None and len(r) == 1 and not star:
                (e,) = r
                fw = getattr(e, 'fwd', None)
                if fw is not None and fw[0].atom is None and fw[0].term is t and \
                        AND(self.full_guard(), NOT(e.guard)) is FALSE and not self.carried_mod('a:' + name, e):
                    return fw[2]
            old = T('attr', t, name, self.ver({'a:' + name}))
            fw = self.forward_attr(t, name, old)
            return fw if fw is not None else leaf(old)
        return mapn(f, b)

    def each(self, f, m):
        """f of every alternative of m, with what makes it that one known"""
        if m.atom is None or m.nl > 8:
            return mapn(f, m)
        g0, r = self.g, None
        for c, t in leaves(m):
            self.g = AND(g0, c)
            if AND(self.outer, self.g) is FALSE:
                continue
            v = f(t)
            r = v if r is None else ite(c, v, r)
        self.g = g0
        return mapn(f, m) if r is None else r

    def full_guard(self):
        return AND(self.outer, self.g)

    def carried_mod(self, region, e):
        # inside a loop a later store in the same loop may reach; be conservative
        for L in self.loops:
            if e.loop is not L and not self.in_loop(e.loop, L):
                return True
        return False

    def attr_is_const(self, name):
        """never stored through an attribute anywhere in the program"""
        c = getattr(self.prog, '_stored_attrs', None)
        if c is None:
            c = set()
            for m in self.prog.mods.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        c.add(n.attr)
            self.prog._stored_attrs = c
        return name not in c

    def slice_val(self, fr, s):
        def p(x):
            return self.force(self.ev(fr, x)) if x is not None else NONE
        lo = p(s.lower)
        if lo.atom is None and lo.term[0] == 'const' and lo.term[1] == 0 and s.step is None:
            lo = NONE
        return leaf(T('slice', lo, p(s.upper), p(s.step)))

    def e_Slice(self, fr, n):
        return self.slice_val(fr, n)

    def e_Subscript(self, fr, n):
        b = self.force(self.ev(fr, n.value))
        if isinstance(n.slice, ast.Slice):
            sl = self.slice_val(fr, n.slice)

            return self.slice_sub(b, sl)
        k = self.escape(self.ev(fr, n.slice))
        return self.sub_read(b, k)

    def slice_sub(self, b, sl):
        def f(t):
            if sl.term[1] is NONE and sl.term[2] is NONE and sl.term[3] is NONE and t[0] in ('tuple',):
                return leaf(t)
            a, bb, c = sl.term[1:]
            if c is NONE and isinstance(bb, MT) and any(x[0] == 'app' and x[1] == 'min' for _, x in leaves(bb)):
                # no slice reaches past the end
                n = self.mkapp_len(t)

                def inner(x):
                    if x[0] == 'app' and x[1] == 'min':
                        rest = [y for y in x[2] if not (y.atom is None and (y.term is n or noversion(y.term) == noversion(n)))]
                        if rest and len(rest) < len(x[2]):
                            return rest[0] if len(rest) == 1 else leaf(self.mkapp('min', rest))
                    return leaf(x)
                b2 = mapn(inner, bb)
                if b2 is not bb:
                    return self.slice_sub(leaf(t), leaf(T('slice', a, b2, c)))
            if t[0] == 'tuple' and c is NONE and all(x is NONE or (x.atom is None and x.term[0] == 'const')
                                                     for x in (a, bb)):
                return leaf(T('tuple', *t[1:][(None if a is NONE else a.term[1]):
                                              (None if bb is NONE else bb.term[1])]))
            return leaf(T('slice_of', t, sl.term, self.ver({self.region_t(t)})))
        return mapn(f, b)

    def e_Starred(self, fr, n):
        return leaf(T('splat', self.as_term(self.force(self.ev(fr, n.value)))))

    # ---------------------------------------------------------- comprehensions
    def comp_runner(self, fr, n, elt, it0=None):
        """returns run(body) executing the comprehension, calling body(value) per element"""
        def run(body, names=None, s=None):
            cf = Frame(fr.mod, fr.cls, parent=fr, func=fr.func)
            cf.selfname = None

            def level(i):
                if i == len(n.generators):
                    if isinstance(elt, tuple):
                        body(tuple(self.ev(cf, x) for x in elt))
                    else:
                        body(self.ev(cf, elt))
                    return
                g = n.generators[i]
                it = it0 if it0 is not None and not i else self.ev(cf if i else fr_or(cf, fr), g.iter)
                tn = assigned_names([g.target])
                extra = set(names or ())

                def bodyfn():
                    c = TRUE
                    g0 = self.g
                    for cond in g.ifs:
                        c2 = truth(self.ev(cf, cond))
                        self.g = AND(self.g, c2)
                    if self.g is FALSE:
                        self.g = g0
                        return
                    gin = self.g
                    envs = self.snap(cf)
                    r0 = dict(self.reach)
                    level(i + 1)
                    # values assigned by the consumer under the filter
                    if gin is not g0:
                        self.restore(cf, self.merge_env(restrict_rel(gin, g0), self.snap(cf), envs))
                        self.reach = self.merge_reach(self.reach, r0)
                        if self.g is gin:
                            self.g = g0
                        else:
                            self.g = OR(self.g, AND(g0, NOT(gin)))
                # names assigned by the consumer live in outer frames
                self.for_over(cf, it, lambda v: self.assign(cf, g.target, v, n.lineno), bodyfn,
                              _CompNames(extra, cf, fr), n.generators[i] if s is None else _Tok(n, i, s))
            level(0)
        return run

    def e_GeneratorExp(self, fr, n):
        # the outermost iterable is evaluated where the expression stands
        it0 = self.ev(fr, n.generators[0].iter)
        return leaf(T('uniq', GenVal(n, fr, self.comp_runner(fr, n, n.elt, it0))))

    def e_ListComp(self, fr, n):
        gv = leaf(T('uniq', GenVal(n, fr, self.comp_runner(fr, n, n.elt))))
        return self.to_list(fr, gv, n.lineno)

    def e_SetComp(self, fr, n):
        nl = self.newnode('newset', init=())
        lt = leaf(T('uniq', nl))
        self.comp_runner(fr, n, n.elt)(lambda x: self.emit('m', [lt, self.escape(x)], mods={'l:%d' % nl.n},
                                                           callee='add', line=n.lineno))
        return lt

    def e_DictComp(self, fr, n):
        nl = self.newnode('newdict', init=())
        lt = leaf(T('uniq', nl))
        self.comp_runner(fr, n, (n.key, n.value))(
            lambda kv: self.emit('setitem', [lt, self.escape(kv[0]), self.escape(kv[1])], mods={'l:%d' % nl.n},
                                 line=n.lineno))
        return lt

    def e_Yield(self, fr, n):
        v = self.ev(fr, n.value) if n.value is not None else NONE
        f = fr
        while f.ybody is None and f.parent is not None and f.func is f.parent.func and False:
            f = f.parent
        return self.do_yield(fr, v, n.lineno)

    def e_YieldFrom(self, fr, n):
        v = self.ev(fr, n.value)
        self.consume(fr, v, lambda x: self.do_yield(fr, x, n.lineno), n.lineno)
        return NONE

    def e_Await(self, fr, n):
        raise Unsupported('await')

    # ---------------------------------------------------------- escaping values
    def escape(self, v):
        """A value stored, passed or returned: functions become closures with a graph."""
        v = self.force(v)
        if v.atom is None and v.term[0] not in ('uniq', 'glob'):
            return v

        def f(t):
            if t[0] == 'uniq' and isinstance(t[1], FnVal):
                return leaf(T('uniq', self.close_fn(t[1])))
            if t[0] == 'uniq' and isinstance(t[1], BoundMethod):
                return leaf(T('uniq', self.close_fn(t[1].func)))
            if t[0] == 'uniq' and isinstance(t[1], ClassClosure):
                self.close_class(t[1])
            if t[0] == 'glob' and len(t) > 2 and t[2] == 'func' and t[1] not in self.known and t[1] in self.prog.funcs and \
                    t[1] not in self.stack:
                # a function the reference does not know, handed on: what it does counts, not its name
                if t[1] not in self.handed:
                    f = self.prog.funcs[t[1]]
                    self.handed[t[1]] = FnVal(f.node, Frame(f.mod, f.cls, func=f))
                return leaf(T('uniq', self.close_fn(self.handed[t[1]])))
            return leaf(t)
        return mapn(f, v)

    def close_class(self, cc):
        if getattr(cc, 'closed', False):
            return
        cc.closed = True
        cc.cm = {}
        for name, fv in cc.methods.items():
            # private helper methods of the local class are inlined where called
            if name.startswith('__') and name.endswith('__'):
                cc.cm[name] = self.close_fn(fv)
            else:
                cc.cm[name] = None
        cc.live_attrs = {}

    def close_fn(self, fv):
        if fv.closure is not None:
            return fv.closure
        n = fv.node
        a = n.args
        params = [x.arg for x in a.posonlyargs + a.args]
        cl = Closure(len(params) - (1 if fv.selfcls is not None else 0))
        fv.closure = cl
        cl.node = n
        fr = Frame(fv.frame.mod, fv.frame.cls, parent=fv.frame, func=fv.frame.func)
        depth = len(self.stack)
        for i, p in enumerate(params):
            if fv.selfcls is not None and i == 0:
                fr.env[p] = leaf(T('selfcc', fv.selfcls))
            else:
                fr.env[p] = leaf(T('cparam', self.depth, i - (1 if fv.selfcls is not None else 0)))
        for p in a.kwonlyargs:
            fr.env[p.arg] = leaf(T('cparam', self.depth, p.arg))
        if a.vararg:
            fr.env[a.vararg.arg] = leaf(T('cparam', self.depth, '*'))
        if a.kwarg:
            fr.env[a.kwarg.arg] = leaf(T('cparam', self.depth, '**'))
        saved = (self.effects, self.g, self.outer, self.reach, self.loops, self.base_ver, self.lctx, self.rstop)
        self.lctx, self.rstop = [], 0
        self.effects = []
        self.g = TRUE
        self.outer = TRUE
        self.reach = {}
        self.loops = []
        self.base_ver = frozenset({('late',)})
        self.depth += 1
        self.stack.append(id(n))
        try:
            if isinstance(n, ast.Lambda):
                v = self.ev(fr, n.body)
                self.effects.append(Effect('return', [self.escape(v)], self.g, None, n.lineno))
            else:
                self.run_body(fr, n.body)
                gen = is_gen(n) or getattr(fr, 'delegated', False)
                cl.gen = gen
                for g, v, line in fr.returns:
                    if not gen:
                        self.effects.append(Effect('return', [self.escape(v)], g, None, line))
                if not gen and self.g is not FALSE:
                    self.effects.append(Effect('return', [NONE], self.g, None, n.lineno))
            cl.effects = self.prune(self.effects)
            for d in a.defaults:
                pass
        finally:
            self.stack.pop()
            self.depth -= 1
            (self.effects, self.g, self.outer, self.reach, self.loops, self.base_ver, self.lctx,
             self.rstop) = saved
        return cl

    # ---------------------------------------------------------- calls
    def e_Call(self, fr, n):
        fn = n.func
        # ignored diagnostics
        if isinstance(fn, ast.Name) and fn.id == 'print' and self.lookup(fr, 'print') is None:
            for a in n.args:
                pass
            return NONE
        root = fn
        while isinstance(root, ast.Attribute):
            root = root.value
        if isinstance(root, ast.Name) and root.id in IGNORED_ROOTS:
            return NONE
        if isinstance(fn, ast.Attribute):
            if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == 'super':
                args, kw = self.args(fr, n)
                cls = self.func.cls
                slf = self.lookup(fr, fr.selfname or (self.func.params[0] if self.func.params else 'self'))
                f = None
                if cls in self.prog.classes:
                    for b in self.prog.classes[cls].bases:
                        f = f or self.prog.find_method(b, fn.attr)
                if f is not None:
                    return self.call_func(f, [slf] + args, kw, n.lineno)
                return self.emit_call('super.' + fn.attr, [slf] + args, kw, set(), n.lineno)
            base = self.ev(fr, fn.value)
            return self.method_call(fr, base, fn.attr, n)
        v = self.ev(fr, fn)
        return self.call_value(fr, v, n)

    def args(self, fr, n):
        out = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.force(self.ev(fr, a.value))
                if v.atom is None and v.term[0] == 'tuple':
                    out.extend(unmt(x) for x in v.term[1:])
                elif v.atom is None and v.term[0] == 'const' and isinstance(v.term[1], tuple):
                    out.extend(const(x) for x in v.term[1])
                elif v.atom is None and v.term[0] == 'app' and v.term[1] == '.getActive':
                    # an active range is a pair (setActive insists on it)
                    out.extend(self.proj(v, i, 2) for i in (0, 1))
                else:
                    out.append(leaf(T('splat', self.as_term(v))))
            else:
                out.append(self.ev(fr, a))
        kw = {}
        for k in n.keywords:
            v = self.ev(fr, k.value)
            if k.arg is None:
                d = self.entries(v)
                if d is not None and not set(d) & set(kw):
                    kw.update(d)
                else:
                    kw['**'] = v
            else:
                kw[k.arg] = v
        return out, kw

    def entries(self, v):
        """name -> value of a dict display with constant string keys nothing else is done to, else None"""
        if v.atom is not None or v.term[0] != 'uniq' or v.term[1].kind != 'newdict' or v.term[1].alias is not None:
            return None
        u = v.term[1]
        out = {}
        if 'l:%d' % u.n in self.reach and not self.reach['l:%d' % u.n] <= set(u.__dict__.get('touches', ())) or '*' in self.reach:
            return None
        for e in u.__dict__.get('touches', ()):
            k = e.args[1] if e.kind == 'setitem' else None
            if k is None or k.atom is not None or k.term[0] != 'const' or not isinstance(k.term[1], str) or k.term[1] in out or \
                    e.loop is not (self.loops[-1] if self.loops else None) or \
                    AND(self.full_guard(), NOT(e.guard)) is not FALSE:
                return None
            out[k.term[1]] = e.args[2]
        return out

    def call_value(self, fr, v, n):
        if v.atom is not None:
            # a choice of functions: call each under its condition
            ls = leaves(v)
            if all(t[0] == 'uniq' and isinstance(t[1], (FnVal, BoundMethod)) for _, t in ls):
                args, kw = self.args(fr, n)
                g0 = self.g
                res = None
                pre = self.snap(fr)
                for c, t in ls:
                    self.g = AND(g0, c)
                    if self.g is FALSE:
                        continue
                    r = self.call_fnval(t[1], args, kw, n.lineno)
                    res = r if res is None else ite(c, r, res)
                self.g = g0
                return res if res is not None else UNDEF
            args, kw = self.args(fr, n)
            return self.emit_call('<value>', [self.escape(v)] + args, kw, {'*'}, n.lineno)
        t = v.term
        if t[0] == 'uniq' and isinstance(t[1], (FnVal, BoundMethod)):
            args, kw = self.args(fr, n)
            return self.call_fnval(t[1], args, kw, n.lineno)
        if t[0] == 'uniq' and isinstance(t[1], ClassClosure):
            args, kw = self.args(fr, n)
            return self.emit_call('<localclass>', [self.escape(v)] + args, kw, set(), n.lineno)
        if t[0] == 'glob':
            kind = t[2] if len(t) > 2 else ''
            name = t[1]
            if kind == 'builtin':
                return self.builtin(fr, name, n)
            if kind == 'func':
                args, kw = self.args(fr, n)
                return self.call_func(self.prog.funcs[name], args, kw, n.lineno)
            if kind == 'class':
                args, kw = self.args(fr, n)
                return self.ctor(name, args, kw, n.lineno)
            if kind == 'ext':
                args, kw = self.args(fr, n)
                return self.external(name, args, kw, n.lineno, fr, n)
        args, kw = self.args(fr, n)
        if t[0] == 'param' and t[1] == 0 and self.root.kind == 'class' and self.root.cls:
            return self.ctor('cls', args, kw, n.lineno)
        if t[0] == 'app' and t[1] == 'type':
            return self.emit_call('<type()>', [v] + args, kw, {'*'}, n.lineno)
        if t[0] == 'attr' and t[2] in self.prog.by_name and self.attr_is_const(t[2]):
            # a bound method held in a variable
            if t[1][0] == 'glob' and len(t[1]) > 2 and t[1][2] == 'class':
                return self.class_call(leaf(t[1]), t[2], args, kw, n.lineno)
            return self.known_method_call(t[2], leaf(t[1]), args, kw, n.lineno)
        h = t[1] if t[0] == 'sub' else t
        mods = set() if h[0] == 'attr' and self.prog.pure_values(h[2]) else {'*'}
        return self.emit_call('<value>', [self.escape(v)] + args, kw, mods, n.lineno)

    def call_fnval(self, fv, args, kw, line):
        recv = None
        if isinstance(fv, BoundMethod):
            recv = fv.recv
            fv = fv.func
        n = fv.node
        if id(n) in self.stack or len(self.stack) > 12:
            a = ([recv] if recv is not None else []) + args
            return self.emit_call('<recursive>', [leaf(T('uniq', self.close_fn_rec(fv)))] + a, kw, {'*'}, line)
        fr = Frame(fv.frame.mod, fv.frame.cls, parent=fv.frame, func=fv.frame.func)
        if recv is not None:
            args = [recv] + args
        self.bind_params(fr, n.args, args, kw, fv.frame)
        return self.inline_body(fr, n, id(n), line)

    def close_fn_rec(self, fv):
        if fv.closure is None:
            return self.close_fn(fv)
        return fv.closure

    def bind_params(self, fr, a, args, kw, deffr):
        params = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        nd = len(a.defaults)
        defaults = dict(zip(params[len(params) - nd:], a.defaults))
        rest = []
        if any(x.atom is None and x.term[0] == 'splat' for x in args):
            raise Unsupported('splat into inlined call')
        for i, p in enumerate(params):
            if i < len(args):
                fr.env[p] = args[i]
            elif p in kw:
                fr.env[p] = kw.pop(p)
            elif p in defaults:
                fr.env[p] = self.ev(deffr, defaults[p])
            else:
                raise Unsupported('missing argument in inlined call')
        rest = args[len(params):]
        if a.vararg:
            fr.env[a.vararg.arg] = leaf(T('tuple', *[self.as_term(self.escape(x)) for x in rest]))
        elif rest:
            raise Unsupported('too many arguments in inlined call')
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg in kw:
                fr.env[p.arg] = kw.pop(p.arg)
            elif d is not None:
                fr.env[p.arg] = self.ev(deffr, d)
            else:
                raise Unsupported('missing keyword in inlined call')
        if a.kwarg and set(kw) == {'**'}:
            fr.env[a.kwarg.arg] = kw['**']
        elif a.kwarg:
            nd = self.newnode('newdict', init=())
            for k, v in kw.items():
                self.emit('setitem', [leaf(T('uniq', nd)), const(k), self.escape(v)], mods={'l:%d' % nd.n})
            fr.env[a.kwarg.arg] = leaf(T('uniq', nd))
        elif kw:
            raise Unsupported('unexpected keyword in inlined call')

    def inline_func(self, f, args, kw, line):
        fr = Frame(f.mod, f.cls, parent=None, func=f)
        deffr = Frame(f.mod, f.cls, func=f)
        self.bind_params(fr, f.node.args, args, kw, deffr)
        fr.selfname = f.params[0] if f.params and f.kind in ('method', 'class', 'prop') else None
        self.inlined.add(f.qual)
        return self.inline_body(fr, f.node, f.qual, line)

    def inline_body(self, fr, n, key, line):
        if isinstance(n, ast.Lambda):
            self.stack.append(key)
            try:
                return self.ev(fr, n.body)
            finally:
                self.stack.pop()
        if is_gen(n):
            def run(body, names=None, s=None):
                fr.ybody = body
                self.stack.append(key)
                g0, outer0 = self.g, self.outer
                self.outer = AND(outer0, g0)
                self.g = TRUE
                try:
                    self.run_body(fr, n.body)
                finally:
                    self.stack.pop()
                self.g, self.outer = g0, outer0
            return leaf(T('uniq', GenVal(n, fr, run)))
        self.stack.append(key)
        g0, outer0 = self.g, self.outer
        self.outer = AND(outer0, g0)
        self.g = TRUE
        func0 = self.func
        if fr.func is not None:
            self.func = fr.func
        cons, self.consumers = self.consumers, []
        try:
            self.run_body(fr, n.body)
        finally:
            self.stack.pop()
            self.func = func0
            self.consumers = cons
        res = None
        gout = FALSE
        if self.g is not FALSE:
            fr.returns.append((self.g, NONE, line))
        elif fr.rreach:
            self.reach = fr.rreach.pop()
        for r in fr.rreach:
            self.reach = self.merge_reach(self.reach, r)
        for g, v, _ in reversed(fr.returns):
            if g is FALSE:
                continue
            v = self.force(v)
            res = v if res is None else self.mite(g, v, res)
            gout = OR(gout, g)
        if res is not None and res.atom is not None and gout is not TRUE and gout is not FALSE:
            res = restrict(res, gout)       # where it raises there is no value
        self.outer = outer0
        self.g = AND(g0, gout)
        return res if res is not None else UNDEF

    # -- known functions
    def should_inline(self, f):
        self.resolved.add(f.qual)
        if f.qual in self.stack or len(self.stack) > 8:
            return False
        if f.qual in self.inline_set:
            return True
        if f.qual not in self.known:
            return True
        return self.trivial(f)

    def trivial(self, f):
        """getter: body is `return self.attr` (or a static constant expression of parameters)"""
        b = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        if len(b) != 1 or not isinstance(b[0], ast.Return) or b[0].value is None:
            return False
        v = b[0].value
        while isinstance(v, ast.Attribute):
            v = v.value
        return isinstance(v, ast.Name) and isinstance(b[0].value, ast.Attribute) and f.kind == 'method'

    def unsplat(self, f, args, kw, bound):
        """f(*x) with exactly n parameters left is f(x[0], .., x[n-1])"""
        if not args or args[-1].atom is not None or args[-1].term[0] != 'splat' or kw or f.vararg or f.defaults:
            return args
        if any(a.atom is None and a.term[0] == 'splat' for a in args[:-1]):
            return args
        n = len(f.params) - bound - len(args) + 1
        v = unmt(args[-1].term[1])
        return args[:-1] + [self.proj(v, i, n) for i in range(n)] if n > 0 else args

    def call_func(self, f, args, kw, line, name=None):
        if self.should_inline(f):
            return self.inline_func(f, args, kw, line)
        if f.qual not in self.known:
            self.calls_unknown.append(f.qual)
        args, kw = self.normalise_args([f], args, kw)
        nm = name or (f.qual if f.kind != 'method' else '.' + f.name)
        return self.known_call(nm, [f], args, kw, line)

    def known_call(self, nm, cands, args, kw, line):
        reads = set()
        pure = True
        for f in cands:
            if not f.pure and (f.is_gen or self.mods_of([f], args, kw)):
                pure = False
            reads |= f.reads
        if pure:
            v = self.pure_app(nm, args, kw, reads)
            if any(f.fresh for f in cands):
                for _, t in leaves(v):
                    self.made[t] = tuple(self.loops)
            return v
        m2 = self.mods_of(cands, args, kw)
        r = self.emit_call(nm, args, kw, m2, line, reads)
        if args and nm.startswith('.') and all(self.returns_self(f) for f in cands):
            return args[0]
        return r

    def returns_self(self, f):
        r = f.__dict__.get('_retself')
        if r is None:
            r = f.kind == 'method' and not f.is_gen and bool(f.params)
            if r:
                me = f.params[0]
                last = f.node.body[-1]
                r = isinstance(last, ast.Return) and all(
                    isinstance(n.value, ast.Name) and n.value.id == me for n in own_nodes(f.node) if isinstance(n, ast.Return)) and \
                    not any(isinstance(n, ast.Name) and n.id == me and not isinstance(n.ctx, ast.Load) for n in ast.walk(f.node))
            f._retself = r
        return r

    def mods_of(self, cands, args, kw, other=False):
        """what the call changes, with changes to parameters turned into changes to the arguments"""
        out = set()
        for f in cands:
            for m in (f.modother if other else f.mods):
                if not m.startswith(('p:', 'cb:')):
                    out.add(m)
                    continue
                pn = m.split(':', 1)[1]
                v = kw.get(pn)
                if v is None and pn in f.params:
                    i = f.params.index(pn) - (1 if f.kind == 'class' or other else 0)
                    if 0 <= i < len(args):
                        v = args[i]
                if v is None:
                    continue
                if m.startswith('p:'):
                    out |= self.region(self.force(v))
                elif not all(self.harmless(t) for _, t in leaves(v)):
                    out.add('*')
        return out

    def harmless(self, t):
        """calling this value changes nothing"""
        if t[0] == 'const':
            return True
        if t[0] == 'glob' and len(t) > 2 and t[2] == 'func' and t[1] not in self.known and t[1] in self.prog.funcs:
            t = ('uniq', FnVal(self.prog.funcs[t[1]].node, None))
        if t[0] == 'uniq' and isinstance(t[1], FnVal):
            for n in ast.walk(t[1].node):
                if isinstance(n, (ast.Attribute, ast.Subscript)) and not isinstance(n.ctx, ast.Load):
                    return False
                if isinstance(n, ast.Call) and not (isinstance(n.func, ast.Name) and n.func.id in PURE_BUILTINS):
                    return False
            return True
        if t[0] == 'uniq' and t[1].kind == 'closure':
            return t[1].__dict__.get('harmless', False)
        return t[0] == 'glob' and len(t) > 2 and t[2] == 'builtin' and t[1] in PURE_BUILTINS

    def pure_app(self, nm, args, kw, reads=()):
        args = [self.escape(a) for a in args]
        kws = tuple(T('kw', k, self.as_term(self.escape(v))) for k, v in sorted(kw.items()))
        tot = 1
        for a in args:
            tot *= a.nl
        regs = set(reads)
        for a in args:
            regs |= self.region(a)
        ver = self.ver(regs)

        def mk(*ts):
            return leaf(T('app', nm, tuple(leaf(t) for t in ts), ver) if not kws else
                        T('app', nm, tuple(leaf(t) for t in ts), ver, kws))
        if tot > MAXLEAF:
            return leaf(T('app', nm, tuple(args), ver) if not kws else T('app', nm, tuple(args), ver, kws))
        return mapn(mk, *args) if args else mk()

    def emit_call(self, nm, args, kw, mods, line, reads=()):
        args = [self.escape(a) for a in args]
        for k, v in sorted(kw.items()):
            args.append(leaf(T('kw', k, self.as_term(self.escape(v)))))
        fg = self.full_guard()
        args = [restrict(a, fg) if a.atom is not None else a for a in args]
        combos = self.combos(args, 6)

        def one(args):
            e = self.emit('call', args, mods=mods or {'unk'}, callee=nm, line=line, reads=reads)
            r = Uniq('res', effect=e)
            r.show = lambda: T('app', nm, tuple(args), frozenset())
            return leaf(T('uniq', r))
        if combos is None or len(combos) == 1:
            return one(args)
        g0, res, r0 = self.g, None, dict(self.reach)
        racc = None
        for c, ts in combos:
            self.g = AND(g0, c)
            if AND(self.outer, self.g) is FALSE:
                continue
            self.reach = dict(r0)
            x = one([leaf(t) for t in ts])
            racc = self.reach if racc is None else self.merge_reach(racc, self.reach)
            res = x if res is None else ite(c, x, res)
        self.g = g0
        self.reach = racc
        return res

    def combos(self, args, cap):
        """[(condition, leaf terms)] when the arguments are few-valued"""
        tot = 1
        for a in args:
            tot *= a.nl
        if tot == 1:
            return [(TRUE, [a.term for a in args])]
        if tot > 40:
            return None
        m = mapn(lambda *ts: leaf(T('combo', *ts)), *args)
        lv = leaves(m)
        if len(lv) > cap:
            return None
        return [(c, list(t[1:])) for c, t in lv]

    def normalise_args(self, cands, args, kw):
        """keyword -> positional and default completion when all candidates agree"""
        sigs = {(tuple(f.params), tuple(f.kwonly), f.vararg, f.kwarg,
                 tuple(sorted((k, ast.dump(v)) for k, v in f.defaults.items()))) for f in cands}
        if any(a.atom is None and a.term[0] == 'splat' for a in args):
            return args, kw
        if '**' in kw:
            kw, args = dict(kw), list(args)
            while len(nxt := {tuple(f.params[len(args):len(args) + 1]) for f in cands}) == 1 and \
                    all(len(p) == 1 and p[0] in kw for p in nxt):
                args.append(kw.pop(nxt.pop()[0]))
            return args, kw
        if len(sigs) != 1:
            return args, kw
        f = cands[0]
        if f.vararg:
            kw = dict(kw)
            args = list(args)
            while len(args) < len(f.params) and f.params[len(args)] in kw:
                args.append(kw.pop(f.params[len(args)]))
            for p, d in f.defaults.items():
                if p in kw and p in f.kwonly and self.is_default(kw[p], d):
                    del kw[p]
            return args, kw
        kw = dict(kw)
        out = list(args)
        # positional completion
        for p in f.params[len(out):]:
            if p in kw:
                out.append(kw.pop(p))
            elif p in f.defaults:
                try:
                    out.append(const(ast.literal_eval(f.defaults[p])))
                except Exception:
                    return args, kw
            else:
                return args, kw
        # strip trailing defaults
        while out and len(out) <= len(f.params):
            p = f.params[len(out) - 1]
            if p in f.defaults and self.is_default(out[-1], f.defaults[p]):
                out.pop()
            else:
                break
        for p in list(kw):
            if p in f.defaults and self.is_default(kw[p], f.defaults[p]):
                del kw[p]
        return out, kw

    def is_default(self, v, d):
        try:
            return v is const(ast.literal_eval(d))
        except Exception:
            return False

    def ctor(self, name, args, kw, line):
        if name == 'cls':
            cls = self.root.cls
            nm = 'ctor:cls'
        else:
            cls = name
            nm = 'ctor:' + name
        f = self.prog.find_method(cls, '__init__')
        # classes of the reference keep their constructors as primitives
        if f is not None:
            args = self.unsplat(f, args, kw, 1)
            a2, k2 = self.normalise_args([f], [leaf(T('newself'))] + args, kw)
            args, kw = a2[1:], k2
            mods = {m for m in f.modother if not m.startswith(('p:', 'cb:'))} | \
                {m for m in self.mods_of([f], args, kw, True) if m == '*'}
            if cls == 'Fiber' and not args and set(kw) <= {'default', 'shape', 'active_range'} and '*' not in mods:
                mods = set()            # without shared rank attributes it writes only what it creates
        else:
            mods = set()
        if cls == 'CoordPayload' or not mods:
            args = [self.escape(a) for a in args]
            if cls == 'CoordPayload' and not kw:
                return leaf(T('app', nm, tuple(args), frozenset()))
            fg = self.full_guard()
            args = [restrict(a, fg) if a.atom is not None else a for a in args]
            kk = sorted((k, self.escape(v)) for k, v in kw.items())
            kk = [(k, restrict(v, fg) if v.atom is not None else v) for k, v in kk]
            cs = self.combos(args + [v for _, v in kk], 6)
            if cs is not None and len(cs) > 1:
                res = None
                for c, ts in cs:
                    if AND(fg, c) is FALSE:
                        continue
                    u = self.alloc(nm, tuple(leaf(t) for t in ts[:len(args)]),
                                   tuple((k, leaf(t)) for (k, _), t in zip(kk, ts[len(args):])))
                    res = u if res is None else ite(c, u, res)
                return res
            return self.alloc(nm, tuple(args), tuple(kk))
        return self.emit_call(nm, args, kw, mods, line)

    def alloc(self, nm, args, kw):
        u = self.newnode('alloc', cls=nm, args=args, kw=kw, effect=None)
        u.label = '%s(%s)' % (nm[5:], ', '.join([show(a) for a in args] + ['%s=%s' % (k, show(v)) for k, v in kw]))
        return leaf(T('uniq', u))

    def external(self, name, args, kw, line, fr, n):
        short = name
        if short == 'itertools.compress' and len(args) == 2 and not kw:
            both = leaf(T('app', 'zip', (self.escape(self.force(args[0])), self.escape(self.force(args[1]))), frozenset()))

            def run(body, names=None, s=None):
                def b(x):
                    g0 = self.g
                    self.g = AND(g0, truth(self.force(self.sub_read(x, const(1)))))
                    if self.g is not FALSE:
                        body(self.sub_read(x, const(0)))
                    self.g = g0
                self.consume(fr, both, b, line)
            return leaf(T('uniq', GenVal(n, fr, run)))
        if short in ('copy.deepcopy', 'copy.copy'):
            args = [self.escape(a) for a in args]
            u = self.newnode('alloc', cls=short, args=tuple(args[:1]), kw=(), effect=None,
                             ver=self.ver({'*all'}))
            u.label = '%s(%s)' % (short, ', '.join(show(a) for a in args))
            return leaf(T('uniq', u))
        if short == 'bisect.bisect_right':
            short = 'bisect.bisect'
        rootm = short.split('.')[0]
        if short in ('bisect.insort', 'bisect.insort_left', 'bisect.insort_right'):
            if len(args) == 2 and not kw:
                at = self.pure_app('bisect.bisect_left' if short.endswith('left') else 'bisect.bisect', args, {})
                return self.container_mut('insert', args[0], [at, args[1]], {}, line)
            return self.emit_call(short, args, kw, self.region(args[0]) if args else {'*'}, line)
        if short in PURE_STD or rootm in PURE_MODS or short.startswith('os.path'):
            return self.pure_app(short, args, kw)
        if short.startswith('functools.'):
            return self.pure_app(short, args, kw)
        return self.emit_call(short, args, kw, {'io'}, line)

    def call_mods(self, name, cls):
        mods = set()
        for f in self.prog.by_name.get(name, []):
            mods |= {m for m in f.mods if not m.startswith(('p:', 'cb:'))}
        return mods

    def method_call(self, fr, base, name, n):
        line = n.lineno
        # class / module attribute calls
        if base.atom is None:
            t = base.term
            if t[0] == 'glob' and len(t) > 2 and t[2] == 'mod':
                v = self.attr(fr, base, name)
                return self.call_value(fr, v, n)
            if t[0] == 'glob' and len(t) > 2 and t[2] == 'ext':
                args, kw = self.args(fr, n)
                return self.external(t[1] + '.' + name, args, kw, line, fr, n)
            if t[0] == 'glob' and len(t) > 2 and t[2] == 'class':
                args, kw = self.args(fr, n)
                return self.class_call(base, name, args, kw, line)
            if t[0] == 'selfcc' and name in t[1].methods:
                args, kw = self.args(fr, n)
                m = t[1].methods[name]
                return self.call_fnval(m if m.static else BoundMethod(m, base), args, kw, line)
            if t[0] == 'uniq' and isinstance(t[1], ClassClosure) and name in t[1].methods:
                args, kw = self.args(fr, n)
                return self.call_fnval(t[1].methods[name], args, kw, line)
            if t[0] == 'selfcc' and name in t[1].attrs:
                v = self.attr(fr, base, name)
                return self.call_value(fr, v, n)
            if t[0] == 'uniq' and isinstance(t[1], GenVal):
                base = self.force(base)
        base = self.force(base)
        args, kw = self.args(fr, n)
        if name in ('sort', 'reverse') and not args and self.reordered(fr, n, name, base, kw):
            return NONE
        return self.known_method_call(name, self.under(base), args, kw, line)

    def reordered(self, fr, n, name, base, kw):
        """sorting a finished list that only local names know: those names stand for the sorted list from here on"""
        if base.atom is not None or base.term[0] != 'uniq' or base.term[1].kind != 'newlist' or not kw.keys() <= {'key', 'reverse'}:
            return False
        u = base.term[1]
        if u.alias is not None or u.loop is not (self.loops[-1] if self.loops else None) or \
                any(e.kind not in ('m', 'setitem') for e in u.__dict__.get('touches', ())):
            return False
        f = fr
        while f.parent is not None and f.func is f.parent.func:
            f = f.parent
        var = n.func.value.id if isinstance(n.func.value, ast.Name) else None
        if var is None or fr.func is None:
            return False
        later = [x.lineno for x in ast.walk(fr.func.node) if isinstance(x, ast.Name) and x.id == var and
                 isinstance(x.ctx, ast.Store) and x.lineno > n.lineno]
        until = min(later, default=float('inf'))
        for x in ast.walk(fr.func.node):
            t = x.func.value if isinstance(x, ast.Call) and x is not n and isinstance(x.func, ast.Attribute) and \
                x.func.attr in LIST_MUT else x.value if isinstance(x, ast.Subscript) and not isinstance(x.ctx, ast.Load) else \
                x.target if isinstance(x, ast.AugAssign) else None
            if isinstance(t, ast.Name) and t.id == var and n.lineno <= x.lineno < until:
                return False
        me = base.term
        for e in self.effects:
            for i, a in enumerate(e.args):
                if (i or e.kind not in ('m', 'setitem')) and u in self.uniqs_in(a):
                    return False
        slots = []
        for f in self.frames(fr):
            for k, v in f.env.items():
                if v is base or isinstance(v, MT) and v.atom is None and v.term is me:
                    slots.append((f, k))
                elif isinstance(v, MT) and v is not UNDEF and u in self.uniqs_in(v):
                    return False
        if not slots:
            return False
        new = self.pure_app('sorted' if name == 'sort' else 'reversed', [base], kw)
        for f, k in slots:
            f.env[k] = new
        return True

    def class_call(self, base, name, args, kw, line):
        t = base.term
        f = self.prog.find_method(t[1], name)
        if f is not None:
            if f.kind == 'class':
                if self.should_inline(f):
                    return self.inline_func(f, [base] + args, kw, line)
                a, k = self.normalise_args([f], [leaf(T('cls'))] + args, kw)
                return self.known_call(f.qual, [f], a[1:], k, line) if a and a[0].atom is None and \
                    a[0].term[0] == 'cls' else self.known_call(f.qual, [f], a, k, line)
            return self.call_func(f, args, kw, line)
        return self.emit_call(t[1] + '.' + name, args, kw, {'*'}, line)

    def static_cls(self, t):
        """class of a receiver term if known"""
        if t[0] == 'param' and t[1] == 0 and self.root.cls and self.root.kind in ('method', 'class', 'prop'):
            return self.root.cls
        if t[0] == 'uniq' and t[1].kind == 'alloc' and t[1].cls.startswith('ctor:'):
            c = t[1].cls[5:]
            return self.func.cls if c == 'cls' else c
        if t[0] == 'uniq' and t[1].kind == 'res' and t[1].effect.callee and t[1].effect.callee.startswith('ctor:'):
            c = t[1].effect.callee[5:]
            return self.func.cls if c == 'cls' else c
        if t[0] == 'uniq' and t[1].kind == 'alloc' and t[1].cls in ('copy.deepcopy', 'copy.copy') and t[1].args and \
                t[1].args[0].atom is None:
            return self.static_cls(t[1].args[0].term)
        if t[0] == 'attr':
            return {'next_rank': 'Rank', '_owner': 'Rank', '_rank_attrs': 'RankAttrs', '_attrs': 'RankAttrs'}.get(t[2])
        if t[0] == 'app':
            return {'.getOwner': 'Rank', '.getNextRank': 'Rank', '.getRankAttrs': 'RankAttrs',
                    '.getAttrs': 'RankAttrs'}.get(t[1])
        return None

    def known_method_call(self, name, base, args, kw, line):
        lv = [t for _, t in leaves(base)]
        # containers
        listish = all((t[0] == 'uniq' and t[1].kind in ('newlist', 'newdict', 'newset')) or self.is_list_attr(t) or
                      (t[0] == 'sub' and self.region_t(t).startswith('a:') and self.region_t(t)[2:] in self.prog.list_attrs
                       and name in ('append', 'extend', 'insert', 'pop', 'sort')
                       and not self.sub_is_obj(t))
                      for t in lv)
        repo = self.prog.by_name.get(name, [])
        incodec = 'codec' in self.root_mod      # where containers are plain, and the fibers read and not changed
        if incodec and name == 'getPayload' and not kw:
            return self.pure_app('.getPayload', [base] + args, kw, reads=('a:coords', 'a:payloads'))
        if name in LIST_MUT and (listish or not repo or incodec or self.no_method(repo, name, lv, args, kw)):
            return self.container_mut(name, base, args, kw, line)
        if name == 'join' and len(args) == 1:
            a = args[0]
            lst = self.force(a)
            return self.pure_app('.join', [base, lst], {})
        if name == 'format' and not repo:
            if base.atom is None and base.term[0] == 'const' and isinstance(base.term[1], str) and \
                    '**' not in kw and not any(a.atom is None and a.term[0] == 'splat' for a in args):
                r = self.fmt_template(base.term[1], args, kw)
                if r is not None:
                    return r
            return self.pure_app('.format', [base] + args, kw)
        if name == 'get' and len(args) in (1, 2) and not kw:
            # d.get(k, x)  is  d[k] if k in d else x
            k = self.escape(args[0])
            return self.mite(self.compare('In', k, base), self.sub_read(base, k),
                             self.escape(args[1]) if len(args) > 1 else NONE)
        if name in PURE_METH and repo and len(lv) > 1 and not listish and any(self.is_list_attr(t) for t in lv):
            # a list here, an object there
            g0, res = self.g, None
            for c, t in leaves(base):
                self.g = AND(g0, c)
                if AND(self.outer, self.g) is FALSE:
                    continue
                r = self.known_method_call(name, leaf(t), args, kw, line)
                res = r if res is None else ite(c, r, res)
            self.g = g0
            return res if res is not None else UNDEF
        if name in PURE_METH and (listish or not repo):
            return self.pure_app('.' + name, [base] + args, kw)
        # repo methods
        cands = repo
        clss = {self.static_cls(t) for t in lv}
        if len(clss) == 1:
            (c,) = clss
            if c is not None:
                f = self.prog.find_method(c, name)
                if f is not None and not self.prog.subclasses_define(c, name):
                    cands = [f]
        if cands:
            if len(cands) == 1 or len({f.qual for f in cands}) == 1:
                f = cands[0]
                if self.should_inline(f):
                    if f.kind == 'static':
                        return self.inline_func(f, args, kw, line)
                    return self.inline_func(f, [base] + args, kw, line)
                if f.qual not in self.known:
                    self.calls_unknown.append(f.qual)
                if f.kind == 'static':
                    a, k = self.normalise_args([f], args, kw)
                    return self.known_call(f.qual, [f], a, k, line)
                if f.kind == 'class':
                    a, k = self.normalise_args([f], [leaf(T('cls'))] + args, kw)
                    return self.known_call(f.qual, [f], a[1:] if a[0] is leaf(T('cls')) else a, k, line)
                a, k = self.normalise_args([f], [base] + args, kw)
                return self.known_call('.' + name, [f], a, k, line)
            if all(f.kind == 'method' for f in cands):
                if all(self.trivial(f) for f in cands) and \
                        len({ast.dump(strip_doc(f.node)[-1]) for f in cands}) == 1:
                    return self.inline_func(cands[0], [base] + args, kw, line)
                a, k = self.normalise_args(cands, [base] + args, kw)
                return self.known_call('.' + name, cands, a, k, line)
            a, k = [base] + args, kw
            return self.known_call('.' + name, cands, a, k, line)
        if name in PURE_METH:
            return self.pure_app('.' + name, [base] + args, kw)
        # attribute of unknown object
        return self.emit_call('.' + name, [base] + args, kw, {'io', 'unk'} | self.region(base), line)

    def no_method(self, repo, name, lv, args, kw):
        """a container's operation: no method of that name takes these arguments, or none of those objects gets here"""
        if any(self.static_cls(t) is not None for t in lv):
            return False
        if not any(f.kind != 'method' or f.vararg or f.kwarg or
                   len(f.params) - len(f.defaults) <= len(args) + len(kw) + 1 <= len(f.params) for f in repo):
            return True
        return name in ('append', 'extend', 'insert', 'pop', 'remove', 'clear') and \
            (self.root_mod.endswith('metrics.py') or '/model/' in self.root_mod) and \
            all(t[0] in ('sub', 'param', 'cparam') for t in lv)

    def sub_is_obj(self, t):
        r = self.region_t(t)
        return r in ('a:ranks', 'a:fibers', 'a:payloads')

    def container_mut(self, name, base, args, kw, line):
        reg = self.region(base)
        if name in ('write', 'writelines', 'close', 'flush', 'writerow', 'readline', 'seek', 'truncate'):
            reg = reg | {'io'}
        if name == 'extend' and len(args) == 1 and not kw:
            self.consume(None, args[0], lambda v: self.emit('m', [base, self.escape(v)], mods=reg, callee='append',
                                                            line=line), line)
            return NONE
        if name == 'append':
            self.emit('m', [base, self.escape(args[0])], mods=reg, callee='append', line=line)
            return NONE
        if name == 'setdefault' and len(args) == 2:
            # d.setdefault(k, v)  ==  if k not in d: d[k] = v ; d[k]
            k = self.escape(args[0])
            c = self.compare('In', k, base)
            g0 = self.g
            self.g = AND(g0, NOT(c))
            v = self.escape(args[1])
            if self.g is not FALSE:
                self.emit('setitem', [base, k, v], mods=reg, line=line)
            self.g = g0
            return self.sub_read(base, k)
        if name == 'discard' and len(args) == 1:
            k = self.escape(args[0])
            g0 = self.g
            self.g = AND(g0, self.compare('In', k, base))
            if self.g is not FALSE:
                self.emit('m', [base, k], mods=reg, callee='remove', line=line)
            self.g = g0
            return NONE
        a = [base] + [self.escape(x) for x in args]
        if name == 'pop' and len(args) == 0:
            a.append(const(-1))
        if name == 'pop' and len(args) == 1 and not kw and not any(t[0] in ('const', 'lin') or numeric(t) for _, t in leaves(a[1])):
            # d.pop(k)  is  d[k], then  del d[k]
            v = self.sub_read(base, a[1])
            self.emit('m', a, mods=reg, callee='pop', line=line)
            return v
        for k, v in sorted(kw.items()):
            a.append(leaf(T('kw', k, self.as_term(self.escape(v)))))
        e = self.emit('m', a, mods=reg, callee=name, line=line)
        r = Uniq('res', effect=e)
        r.show = lambda: T('app', '.' + name, tuple(a), frozenset())
        return leaf(T('uniq', r)) if name in ('pop', 'popitem', 'popleft', 'readline', 'write') else NONE

    # -- builtins
    def builtin(self, fr, name, n):
        line = n.lineno
        if name in ('any', 'all') and len(n.args) == 1:
            return self.anyall(fr, name, self.ev(fr, n.args[0]), line)
        if name == 'sum' and n.args:
            return self.sum(fr, n, line)
        if name == 'next':
            return self.next(fr, n, line)
        args, kw = self.args(fr, n)
        if name == 'len' and len(args) == 1:
            a = self.force(args[0])

            return self.each(lambda t: leaf(self.mkapp_len(t)), a)
        if name == 'isinstance' and len(args) == 2:
            return self.isinstance(args[0], args[1])
        if name in ('list', 'tuple', 'set') and len(args) == 0:
            if name == 'tuple':
                return leaf(T('tuple'))
            return leaf(T('uniq', self.newnode('newlist' if name == 'list' else 'newset', init=())))
        if name == 'dict' and not args and not kw:
            return leaf(T('uniq', self.newnode('newdict', init=())))
        if name == 'dict' and not args:
            nd = self.newnode('newdict', init=())
            for k, v in kw.items():
                self.emit('setitem', [leaf(T('uniq', nd)), const(k), self.escape(v)], mods={'l:%d' % nd.n}, line=line)
            return leaf(T('uniq', nd))
        if name == 'list' and len(args) == 1:
            return self.to_list(fr, args[0], line)
        if name == 'set' and len(args) == 1:
            nl = self.newnode('newset', init=())
            lt = leaf(T('uniq', nl))
            self.consume(fr, args[0], lambda x: self.emit('m', [lt, self.escape(x)], mods={'l:%d' % nl.n}, callee='add',
                                                          line=line), line)
            return lt
        if name == 'tuple' and len(args) == 1:
            a = args[0]
            if a.atom is None and a.term[0] == 'tuple':
                return a
            if a.atom is None and a.term[0] == 'uniq' and isinstance(a.term[1], GenVal):
                a = self.to_list(fr, a, line)
            if a.atom is None and a.term[0] == 'slice_of' and a.term[2][1] is NONE and a.term[2][2] is NONE and \
                    a.term[2][3] is const(-1):
                a = self.pure_app('reversed', [leaf(a.term[1])], {})
            return self.pure_app('tuple', [a], {})
        if name == 'map' and len(args) == 2:
            fnv, it = args[0], self.force(args[1]) if not self.isgen(args[1]) else args[1]

            def run(body, names=None, s=None):
                self.consume(fr, it, lambda x: body(self.apply(fr, fnv, [x], line)), line)
            return leaf(T('uniq', GenVal(n, fr, run)))
        if name == 'filter' and len(args) == 2:
            fnv, it = args

            def run(body, names=None, s=None):
                def b(x):
                    c = truth(x if fnv is NONE else self.apply(fr, fnv, [x], line))
                    g0 = self.g
                    self.g = AND(g0, c)
                    if self.g is not FALSE:
                        body(x)
                    self.g = g0
                self.consume(fr, it, b, line)
            return leaf(T('uniq', GenVal(n, fr, run)))
        if name in ('str',) and len(args) == 1:
            return self.str_of(self.escape(args[0]))
        if name == 'bool' and len(args) == 1:
            return truth(self.force(args[0]))
        if name == 'range':
            a, b, c = self.range_args([self.force(x) for x in args])
            return leaf(T('app', 'range', (a, b, c), frozenset()))
        if name == 'reversed' and len(args) == 1:
            a = self.force(args[0])
            if a.atom is None and a.term[0] == 'app' and a.term[1] == 'range':
                x, y, z = a.term[2]
                if z is const(1):
                    one = const(1)
                    return leaf(T('app', 'range', (self.binop('Sub', y, one, 0), self.binop('Sub', x, one, 0), const(-1)),
                                  frozenset()))
            return self.pure_app('reversed', [a], {})
        if name in ('enumerate', 'zip'):
            if name == 'enumerate' and 'start' in kw:
                args = args + [kw.pop('start')]
            a = [self.force(x) for x in args]
            return leaf(T('app', name, tuple(self.escape(x) for x in a), frozenset()))
        if name in ('min', 'max') and len(args) == 1 and set(kw) == {'default'}:
            x = self.force(args[0])
            return ite(truth(x), self.pure_app(name, [x], {}), self.force(kw['default']))
        if name in ('min', 'max') and len(args) >= 2 and not kw:
            args = [self.force(a) for a in args]
            flat = []

            def add(m):
                if m.atom is None and m.term[0] == 'app' and m.term[1] == name and len(m.term) == 4:
                    for y in m.term[2]:
                        add(y)
                else:
                    flat.append(m)
            for a in args:
                add(a)
            tot = 1
            for a in flat:
                tot *= a.nl
            if tot > MAXLEAF:
                return leaf(T('app', name, tuple(flat), frozenset()))
            return mapn(lambda *ts: leaf(T('app', name, tuple(leaf(t) for t in ts), frozenset())), *flat)
        if name == 'getattr' and len(args) == 2 and args[1].atom is None and args[1].term[0] == 'const':
            return self.attr(fr, args[0], args[1].term[1])
        if name == 'setattr' and len(args) == 3 and args[1].atom is None and args[1].term[0] == 'const':
            nm = args[1].term[1]
            self.emit('setattr', [args[0], args[1], self.escape(args[2])], mods={'a:' + nm}, line=line)
            return NONE
        if name == 'iter' and len(args) == 1:
            u = self.newnode('alloc', cls='iter', args=(self.escape(args[0]),), kw=(), effect=None)
            return leaf(T('uniq', u))
        if name == 'type' and len(args) == 1:
            return self.pure_app('type', args, {})
        if name in PURE_BUILTINS:
            return self.pure_app(name, args, kw)
        if name == 'open':
            if len(args) == 1 and 'mode' not in kw:
                args = args + [const('r')]
            elif 'mode' in kw:
                args = args + [kw.pop('mode')]
            return self.emit_call('open', args, kw, {'io'}, line)
        return self.emit_call(name, args, kw, {'io'}, line)

    def isgen(self, v):
        return v.atom is None and v.term[0] == 'uniq' and isinstance(v.term[1], GenVal)

    def apply(self, fr, fnv, args, line):
        if fnv.atom is None:
            t = fnv.term
            if t[0] == 'uniq' and isinstance(t[1], (FnVal, BoundMethod)):
                return self.call_fnval(t[1], args, {}, line)
            if t[0] == 'glob' and len(t) > 2 and t[2] == 'func':
                return self.call_func(self.prog.funcs[t[1]], args, {}, line)
            if t[0] == 'glob' and len(t) > 2 and t[2] == 'class':
                return self.ctor(t[1], args, {}, line)
            if t[0] == 'glob' and len(t) > 2 and t[2] == 'builtin':
                if t[1] == 'str':
                    return self.str_of(args[0])
                if t[1] == 'bool':
                    return truth(args[0])
                if t[1] == 'list':
                    return self.to_list(fr, args[0], line)
                if t[1] == 'len':
                    return self.pure_app('len', args, {})
                return self.pure_app(t[1], args, {})
            if t[0] == 'attr' and isinstance(t[1], Term) and t[1][0] == 'glob' and len(t[1]) > 2 and t[1][2] == 'class':
                return self.class_call(leaf(t[1]), t[2], args, {}, line)
            if t[0] == 'attr':
                # bound method passed by name: obj.meth
                return self.known_method_call(t[2], leaf(t[1]) if not isinstance(t[1], MT) else t[1], args, {}, line)
        return self.emit_call('<value>', [self.escape(fnv)] + args, {}, {'*'}, line)

    def isinstance(self, v, cls):
        v = self.force(v)

        def one(t, c):
            if t[0] == 'const':
                v = t[1]
                if c[0] == 'glob' and c[2] == 'builtin' and c[1] in ('int', 'str', 'tuple', 'list', 'float', 'bool', 'dict'):
                    return const(isinstance(v, {'int': int, 'str': str, 'tuple': tuple, 'list': list, 'float': float,
                                                'bool': bool, 'dict': dict}[c[1]]))
                if c[0] == 'glob' and c[2] == 'class':
                    return FALSE
            if t[0] == 'tuple' and c[0] == 'glob':
                return const(c[1] == 'tuple')
            if t[0] == 'uniq' and t[1].kind == 'newlist' and c[0] == 'glob':
                return const(c[1] == 'list')
            if c[0] == 'glob' and len(c) > 2 and c[2] in ('class', 'builtin'):
                d = _isi.setdefault(t, [])
                for k, m in d:
                    if k is c:
                        return m
                ex = []
                for k, m in d:
                    if self.disjoint(k, c) and all(self.disjoint(k, y) for y, _ in ex):
                        ex.append((k, m))
                m = atom(T('isinst', t, c, *[k for k, _ in ex]))
                for k, y in ex:
                    m = AND(NOT(y), m)
                d.append((c, m))
                return m
            return atom(T('isinst', t, c))

        def f(t, c):
            if c[0] == 'tuple':
                r = FALSE
                for x in c[1:]:
                    r = OR(r, one(t, x))
                return r
            return one(t, c)
        return mapn(f, v, cls)

    def ancestors(self, name):
        out, st = set(), [name]
        while st:
            x = st.pop()
            if x not in out:
                out.add(x)
                st.extend(self.prog.classes[x].bases if x in self.prog.classes else ())
        return out

    def disjoint(self, a, b):
        """no object is an instance of both classes"""
        basic = {'int', 'float', 'str', 'tuple', 'list', 'dict', 'set', 'bool', 'slice', 'type', 'bytes', 'range'}
        if a[2] == 'builtin' and b[2] == 'builtin':
            return a[1] in basic and b[1] in basic and a is not b and {a[1], b[1]} != {'int', 'bool'}
        if a[2] == 'builtin':
            a, b = b, a
        if a[1] not in self.prog.classes:
            return False
        up = self.ancestors(a[1])
        if b[2] == 'builtin':
            return b[1] in basic and all(x in self.prog.classes or x == 'object' for x in up) and \
                not any(a[1] in self.ancestors(c) and b[1] in self.ancestors(c) for c in self.prog.classes)
        if b[1] not in self.prog.classes:
            return False
        return not any(a[1] in y and b[1] in y for y in map(self.ancestors, self.prog.classes))

    def anyall(self, fr, name, it, line):
        it = it if self.isgen(it) else it
        hold = {'g': FALSE}
        f = fr

        def body(v):
            c = truth(v)
            if name == 'all':
                c = NOT(c)
            hold['g'] = OR(hold['g'], AND(self.g, c))
        # run the iteration and collect the witnessing condition in the outermost loop it creates
        n_loops = len(self.loops)
        cond = self.exists(fr, it, (lambda v: truth(v)) if name == 'any' else (lambda v: NOT(truth(v))), line)
        return cond if name == 'any' else NOT(cond)

    def exists(self, fr, it, pred, line):
        """boolean: some element satisfies pred (evaluated with early exit)"""
        if it.atom is None and it.term[0] == 'tuple':
            r = FALSE
            for x in it.term[1:]:
                r = OR(r, pred(unmt(x)))
            return r
        f = Frame(fr.mod if fr else None, None, parent=fr, func=fr.func if fr else None)
        f.env['$found'] = FALSE
        f.nested_exists = True
        # generator: nested loops; the flag becomes true at the witnessing element
        results = []

        def body(v):
            c = pred(v)
            results.append(AND(self.g, c))
        # Build loops by hand so that the exit condition is recorded
        marks = []
        orig = self.loop_common
        created = []

        def hook(fr2, L, names, body2, s, **kw):
            created.append(L)
            k = len(results)
            depth = len(self.loops)
            r = orig(fr2, L, names, body2, s, **kw)
            # conditions found while walking this loop body
            mine = results[k:]
            del results[k:]
            g = FALSE
            for x in mine:
                g = OR(g, x)
            if g is not FALSE:
                L.gexit = OR(L.gexit, g)
                results.append(AND(self.g, atom(T('exit', L, g))))
            return r
        self.loop_common = hook
        try:
            self.consume(f, it, body, line)
        finally:
            del self.loop_common
        r = FALSE
        for x in results:
            r = OR(r, x)
        return restrict_rel(r, self.g)

    def sum(self, fr, n, line):
        it = self.ev(fr, n.args[0])
        start = self.force(self.ev(fr, n.args[1])) if len(n.args) > 1 else const(0)
        if it.atom is None and it.term[0] == 'tuple':
            r = start
            for x in it.term[1:]:
                r = self.binop('Add', r, unmt(x), line)
            return r
        f = Frame(fr.mod, None, parent=fr, func=fr.func)
        f.env['$sum'] = start

        def body(v):
            f.env['$sum'] = self.binop('Add', f.env['$sum'], self.force(v), line)
        if self.isgen(it):
            self.consumed(f, {'$sum'}, lambda ins: it.term[1].run(ins(body)))
            return f.env['$sum']
        holder = {}
        self.for_over(f, it, lambda x: holder.__setitem__('v', x), lambda: body(holder['v']), {'$sum'}, _Anon())
        return f.env['$sum']

    def next(self, fr, n, line):
        it = self.ev(fr, n.args[0])
        if self.isgen(it):
            # first element satisfying the filters
            return self.first(fr, it, self.force(self.ev(fr, n.args[1])) if len(n.args) > 1 else None, line)
        args = [self.force(it)] + [self.force(self.ev(fr, a)) for a in n.args[1:]]
        if len(args) == 2:
            # next(it, d)  is  try: next(it)  except StopIteration: d
            n0 = len(self.effects)
            v = self.emit_call('next', args[:1], {}, {'iter'} | self.region(args[0]), line)
            tu = Uniq('try', effects=self.effects[n0:])
            return self.mite(atom(T('exc', 'StopIteration', tu)), self.escape(args[1]), v)
        return self.emit_call('next', args, {}, {'iter'} | self.region(args[0]), line)

    def first(self, fr, it, default, line):
        vals = []
        orig = self.loop_common

        def body(v):
            vals.append((self.g, self.escape(v)))

        def hook(fr2, L, names, body2, s, **kw):
            k = len(vals)
            r = orig(fr2, L, names, body2, s, **kw)
            mine = vals[k:]
            del vals[k:]
            if mine:
                g, v = FALSE, None
                for gg, vv in mine:
                    v = vv if v is None else ite(gg, vv, v)
                    g = OR(g, gg)
                L.gexit = OR(L.gexit, g)
                vals.append((AND(self.g, atom(T('exit', L, g))), self.wrap_at(L, g, v)))
            return r
        self.loop_common = hook
        try:
            it.term[1].run(body)
        finally:
            del self.loop_common
        g0 = self.g
        found = FALSE
        res = None
        for g, v in vals:
            res = v if res is None else ite(restrict_rel(g, g0), v, res)
            found = OR(found, restrict_rel(g, g0))
        if default is not None:
            return ite(found, res if res is not None else UNDEF, default)
        self.g = AND(g0, NOT(found))
        if self.g is not FALSE:
            self.emit('raise', [leaf(T('glob', 'StopIteration'))], line=line)
        self.g = AND(g0, found)
        return res if res is not None else UNDEF


class _Anon:
    lineno = 0

    def __init__(self, frame=None):
        self.frame = frame


class _Tok:
    def __init__(self, n, i, s):
        self.lineno = getattr(n, 'lineno', 0)
        self.s = s
        self.body = getattr(s, 'body', [])


class _CompNames(set):
    def __init__(self, names, cf, fr):
        set.__init__(self, names)


def fr_or(cf, fr):
    return cf


def restrict_rel(a, g):
    """a under assumption g"""
    return restrict(a, g)


def strip_doc(node):
    return [s for s in node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]


def mleaves(m):
    out, seen, st = [], set(), [m]
    while st:
        x = st.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if x.atom is None:
            out.append((None, x.term))
        else:
            st.append(x.hi)
            st.append(x.lo)
    return out
