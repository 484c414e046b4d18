"""Verdict per function: the guarded-effect value graph of the current tree against the reviewed one."""
import ast
import os
import functools
import signal
import sys
import time

from collections import Counter

from . import cmp
from .mt import TooBig
from .prog import Program, FILES, _strip_pos
from .vg import Builder, Unsupported

sys.setrecursionlimit(30000)

HERE = os.path.dirname(os.path.abspath(__file__))
REF = os.path.join(HERE, 'ref')
DIRS = ('fibertree/core', 'fibertree/model', 'fibertree/codec', 'fibertree/codec/formats', 'fibertree/graphics')


class AnalysisBroken(Exception):
    pass


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


class Limit:
    """bound the time spent on one comparison"""

    def __init__(self, seconds):
        self.s = seconds

    def __enter__(self):
        self.old = signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


class Verdict:
    def __init__(self, kind, note='', diff=None, func=None, inlined=(), counts=None):
        self.kind = kind            # equal | diff | undecided | gone
        self.note = note
        self.diff = diff
        self.func = func
        self.inlined = inlined
        self.counts = counts or {}


def is_private(q):
    n = q.split(':')[-1].split('.')[-1]
    return n.startswith('_') and not (n.startswith('__') and n.endswith('__'))


STATE = ('Fiber', 'Tensor', 'Rank', 'RankAttrs', 'Payload', 'CoordPayload')


def attributes(cls):
    return {n.attr for n in ast.walk(cls.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}


def is_metrics(e):
    return bool(e.callee) and (e.callee.startswith('metrics:') or e.callee.startswith('Metrics.'))


def extra_files(root, ref_all):
    out = []
    for d in DIRS:
        p = os.path.join(root, d)
        if os.path.isdir(p):
            for f in sorted(os.listdir(p)):
                r = d + '/' + f
                if f.endswith('.py') and f != '__init__.py' and r not in ref_all and r not in FILES:
                    out.append(r)
    return out


class Engine:
    def __init__(self, root, ref=REF, overlay=None, per_func=60, base=None):
        with open(os.path.join(ref, 'ALLFILES')) as fh:
            ref_all = set(fh.read().split())
        self.A = base.A if base is not None else Program(ref)
        self.B = Program(root, FILES + extra_files(root, ref_all), overlay=overlay)
        if self.A.errors:
            raise AnalysisBroken('reference: ' + '; '.join(self.A.errors))
        if self.B.errors:
            raise AnalysisBroken('; '.join(self.B.errors))
        self.B.share(self.A)
        self.root = root
        self.known = set(self.A.funcs) & set(self.B.funcs)
        self.same_src = {}
        self.cache = {}
        self.graphs = {k: g for k, g in base.graphs.items() if k[0] == 'A'} if base is not None and \
            base.known == self.known else {}
        self.moved = {}
        self.per_func = per_func
        self.busy = set()

    # ------------------------------------------------------------------ locating functions
    def cur(self, q):
        """the current definition standing for reference function q"""
        f = self.B.funcs.get(q)
        if f is not None:
            return f
        if q in self.moved:
            return self.moved[q]
        a = self.A.funcs.get(q)
        r = None
        if a is not None and a.cls and a.cls in self.B.classes:
            r = self.B.find_method(a.cls, a.name)
        if r is None and a is not None:
            for c in self.B.classes.values():
                if a.cls is None and a.name in c.methods:
                    ca = self.A.classes.get(c.name)
                    if ca is not None and ca.methods.get(a.name) is a:
                        r = c.methods[a.name]
            m = self.B.mods.get(q.split(':')[0])
            if r is None and m is not None and a.cls is None:
                x = m.names.get(a.name)
                if isinstance(x, tuple) and x[0] == 'sym':
                    sm = self.B.mods.get(x[1].split('.')[-1])
                    y = sm.names.get(x[2]) if sm else None
                    if y is not None and hasattr(y, 'node'):
                        r = y
        self.moved[q] = r
        return r

    def defined_otherwise(self, q):
        """is the name still bound by something other than a def (alias, assignment)?"""
        a = self.A.funcs[q]
        if a.cls:
            c = self.B.classes.get(a.cls)
            return c is not None and a.name in c.attrs
        m = self.B.mods.get(q.split(':')[0])
        return m is not None and a.name in m.names

    # ------------------------------------------------------------------ signatures
    def norm_default(self, prog, f, d):
        if isinstance(d, ast.Name):
            x = f.mod.names.get(d.id)
            if isinstance(x, tuple) and x[0] == 'const':
                d = x[1]
        if isinstance(d, ast.Attribute) and isinstance(d.value, ast.Name):
            c = prog.classes.get(d.value.id)
            if c is not None and d.attr in c.attrs:
                d = c.attrs[d.attr]
        try:
            return repr(ast.literal_eval(d))
        except Exception:
            return _strip_pos(d)

    def signature(self, fa, fb):
        """[(clause, text)] of violations of the public signature"""
        out = []
        pub = not is_private(fa.qual)
        if fa.kind != fb.kind and not (pub is False):
            out.append('is a %s, was a %s' % (fb.kind, fa.kind))
        pa, pb = fa.params, fb.params
        for i, p in enumerate(pa):
            if i >= len(pb):
                if p in fb.kwonly:
                    out.append("parameter '%s' is keyword-only" % p)
                elif not (fb.vararg or fb.kwarg):
                    out.append("parameter '%s' is gone" % p)
                continue
            if p != pb[i] and p in pb:
                out.append("parameter '%s' changed place" % p)
        for p in pb[len(pa):]:
            if p not in fb.defaults and not fa.vararg:
                out.append("new parameter '%s' has no default" % p)
        for i, p in enumerate(pa[:len(pb)]):
            da, db = fa.defaults.get(p), fb.defaults.get(pb[i])
            if (da is None) != (db is None):
                if da is not None:
                    out.append("parameter '%s' lost its default" % p)
            elif da is not None:
                x, y = self.norm_default(self.A, fa, da), self.norm_default(self.B, fb, db)
                if x != y:
                    out.append("default of parameter '%s' is %s, was %s" % (p, y[:60], x[:60]))
        for p in fa.kwonly:
            if p not in fb.kwonly and p not in pb and not fb.kwarg:
                out.append("keyword parameter '%s' is gone" % p)
            da, db = fa.defaults.get(p), fb.defaults.get(p)
            if da is not None and db is not None:
                x, y = self.norm_default(self.A, fa, da), self.norm_default(self.B, fb, db)
                if x != y:
                    out.append("default of parameter '%s' is %s, was %s" % (p, y[:60], x[:60]))
        da = [_strip_pos(d) for d in fa.node.decorator_list]
        db = [_strip_pos(d) for d in fb.node.decorator_list]
        for d in da:
            if d not in db and 'Deprecated' not in d and 'deprecated' not in d:
                out.append('decorator removed: ' + d[:80])
        for d in db:
            if d not in da:
                out.append('decorator added: ' + d[:80])
        return out

    # ------------------------------------------------------------------ graphs
    def graph(self, side, q, inl=frozenset(), asis=False):
        """asis: loops are read as written, a statement repeated before the loop and at the end of it is two statements"""
        k = (side, q, inl) if not asis else (side, q, inl, asis)
        g = self.graphs.get(k)
        if g is None:
            prog = self.A if side == 'A' else self.B
            f = self.A.funcs[q] if side == 'A' else self.cur(q)
            try:
                bu = Builder(prog, self.known, inl)
                bu.asis = asis
                g = bu.build(f) if side == 'A' else bu.build(f, like=self.A.funcs[q])
                g.turned = bu.turned
            except Exception as ex:     # a construct outside the model: this function is not judged
                g = ex
                if os.environ.get('SA_DEBUG'):
                    raise
            self.graphs[k] = g
        return g

    def compare(self, q, inl=frozenset(), ignore=None, only=None, limit=None):
        """('equal'|'diff'|'undecided', payload)"""
        try:
            with Limit(min(self.per_func, limit or self.per_func)):
                a = self.graph('A', q, inl)
                b = self.graph('B', q, inl)
                if isinstance(a, Exception):
                    return 'undecided', 'reference side: %s' % (a or type(a).__name__)
                if isinstance(b, Exception):
                    return 'undecided', '%s: %s' % (type(b).__name__, b)
                d = cmp.compare(a, b, ignore=ignore, only=only)
                if d is not None and (a.turned or b.turned):
                    a, b = self.graph('A', q, inl, True), self.graph('B', q, inl, True)
                    if not isinstance(a, Exception) and not isinstance(b, Exception) and \
                            cmp.compare(a, b, ignore=ignore, only=only) is None:
                        d = None
        except Timeout:
            return 'undecided', 'time limit'
        except Exception as ex:
            if os.environ.get('SA_DEBUG'):
                raise
            return 'undecided', '%s: %s' % (type(ex).__name__, str(ex)[:80])
        if d is None:
            return 'equal', None
        return 'diff', d

    def source_same(self, q):
        r = self.same_src.get(q)
        if r is None:
            a, b = self.A.funcs.get(q), self.cur(q)
            r = b is not None and ast.dump(_body(a.node)) == ast.dump(_body(b.node))
            self.same_src[q] = r
        return r

    def resolved(self, side, q, inl):
        g = self.graph(side, q, inl)
        return set() if isinstance(g, Exception) else g.resolved

    def changed_private(self, q):
        """is q a private function whose own graph (or signature) differs from the reference's?"""
        if not is_private(q) or q not in self.known or self.source_same(q):
            return False
        k = ('priv', q)
        if k not in self.cache:
            self.cache[k] = False
            st, _ = self.compare(q)
            sig = self.signature(self.A.funcs[q], self.B.funcs[q]) or \
                self.A.funcs[q].params != self.B.funcs[q].params
            self.cache[k] = st != 'equal' or bool(sig)
        return self.cache[k]

    def compare_deep(self, q, force=frozenset(), ignore=None, only=None):
        """compare, inlining changed private helpers and functions only one side calls, until it settles"""
        inl = frozenset(force)
        st, d = self.compare(q, inl, ignore, only)
        first = (st, d)
        t0 = time.time()
        for _ in range(4):
            if st == 'equal':
                return st, d, inl
            ra, rb = self.resolved('A', q, inl), self.resolved('B', q, inl)
            cand = {x for x in ra | rb if x in self.known and x != q and x not in inl and
                    (self.changed_private(x) or (x in ra) != (x in rb))}
            if not cand or time.time() - t0 > 20:
                break
            inl = inl | cand
            st2, d2 = self.compare(q, inl, ignore, only, 20)
            if st2 == 'undecided':
                break
            st, d = st2, d2
        if st == 'diff':
            # the same small questions asked through different helpers
            tiny = {x for x in self.resolved('A', q, inl) | self.resolved('B', q, inl)
                    if x in self.known and x != q and x not in inl and self.tiny(x)}
            if tiny and time.time() - t0 < 20:
                st2, d2 = self.compare(q, inl | tiny, ignore, only, 20)
                if st2 == 'equal':
                    return st2, d2, inl | tiny
        if st == 'diff' and first[0] == 'diff':
            return st, first[1], inl
        return st, d, inl

    def tiny(self, q):
        """a few tests and a value, and nothing else"""
        for f in (self.A.funcs.get(q), self.cur(q)):
            if f is None or f.is_gen:
                return False
            body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
            ok = (ast.Return, ast.If, ast.Assert, ast.Import, ast.ImportFrom)
            if sum(1 for s in body for x in ast.walk(s) if isinstance(x, ast.stmt)) > 8 or \
                    any(isinstance(x, ast.stmt) and not isinstance(x, ok) for s in body for x in ast.walk(s)):
                return False
        return True

    # ------------------------------------------------------------------ verdicts
    def verdict(self, q, metrics=None):
        """metrics: None whole function, 'only' / 'ignore' what it does to the metrics collector"""
        k = (q, metrics)
        v = self.cache.get(k)
        if v is None:
            if q in self.busy:
                return Verdict('undecided', 'recursive dependency', func=q)
            self.busy.add(q)
            try:
                v = self._verdict(q, metrics)
            except MemoryError:
                self.graphs.clear()
                v = Verdict('undecided', 'memory limit', func=q)
            finally:
                self.busy.discard(q)
            self.cache[k] = v
        return v

    def is_write(self, e):
        """may this effect change something the caller can see (other than the metrics collector and what is new)?"""
        if is_metrics(e) or e.callee and e.callee.startswith('ctor:'):
            return False
        state = self.cache.get('state')
        if state is None:
            state = self.cache['state'] = {'a:' + a for p in (self.A, self.B) for c in STATE if c in p.classes
                                           for a in attributes(p.classes[c])}
        attrs = {m for m in e.mods if m.startswith('a:')}
        return any(m[:2] not in ('l:', 'a:') and m not in ('fresh', 'io', 'unk') or m in state for m in e.mods) or \
            'unk' in e.mods and not attrs

    def _verdict(self, q, metrics):
        fa, fb = self.A.funcs[q], self.cur(q)
        ig = is_metrics if metrics == 'ignore' else None
        on = is_metrics if metrics == 'only' else self.is_write if metrics == 'writes' else None
        if fb is None:
            if self.defined_otherwise(q):
                return Verdict('undecided', 'bound by an assignment', func=q)
            if is_private(q):
                return self.through_callers(q, 'no longer defined', ig, on)
            return Verdict('gone', 'no longer defined', func=q)
        sig = [] if metrics in ('only', 'writes') else self.signature(fa, fb)
        if sig and is_private(q):
            return self.through_callers(q, 'signature: ' + '; '.join(sig), ig, on)
        if sig:
            return Verdict('diff', 'signature: ' + '; '.join(sig), func=q)
        st, d, inl = self.compare_deep(q, ignore=ig, only=on)
        cnt = self.count(q)
        if st == 'equal':
            return Verdict('equal', func=q, inlined=inl, counts=cnt)
        if st == 'undecided':
            return Verdict('undecided', d, func=q)
        if is_private(q):
            t = self.through_callers(q, '', ig, on)
            if t.kind == 'equal':
                return t
            if t.kind == 'undecided':
                name = q.split(':')[-1].split('.')[-1]
                for c in self.callers(self.A, name) | self.callers(self.B, name):
                    if c != q and c in self.A.funcs and self.cur(c) is not None and not self.source_same(c):
                        return t        # changed together with a caller that cannot be judged
        why = self.beyond(q, d)
        if why:
            return Verdict('undecided', why, d, q)
        return Verdict('diff', '', d, q, counts=cnt)

    def count(self, q):
        g = self.graph('A', q)
        if isinstance(g, Exception):
            return {}
        n = getattr(g, 'nitems', len(g.effects))
        return {'effects': n}

    def callers(self, prog, name):
        idx = getattr(prog, '_callers', None)
        if idx is None:
            idx = prog._callers = {}
            for f in prog.funcs.values():
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute):
                        idx.setdefault(n.attr, set()).add(f.qual)
                    elif isinstance(n, ast.Name):
                        idx.setdefault(n.id, set()).add(f.qual)
        return idx.get(name, set())

    def through_callers(self, q, why, ig, on, extra=frozenset()):
        """a private helper may change as long as every function calling it stays the same"""
        name = q.split(':')[-1].split('.')[-1]
        cs = {c for c in self.callers(self.A, name) | self.callers(self.B, name) if c in self.A.funcs and c != q}
        bad = None
        for c in sorted(cs):
            if self.cur(c) is None:
                continue
            v = None
            if c in self.busy and c != q:
                bad = bad or Verdict('undecided', 'recursive dependency on ' + c, func=q)
                continue
            self.busy.add(c)
            try:
                force = extra | ({q} if q in self.known else set())
                st, d, inl = self.compare_deep(c, force=force, ignore=ig, only=on)
                if st == 'diff' and is_private(c):
                    t = self.through_callers(c, '', ig, on, frozenset(force))
                    if t.kind == 'equal':
                        st = 'equal'
            finally:
                self.busy.discard(c)
            if st == 'equal':
                continue
            if st == 'diff':
                w = self.beyond(c, d)
                v = Verdict('undecided', w, d, c) if w else Verdict('diff', (why + ' ' if why else '') + 'private helper %s' % q, d, c)
            else:
                v = Verdict('undecided', str(d), func=c)
            if bad is None or v.kind == 'diff' and bad.kind != 'diff':
                bad = v
        if bad is not None:
            return bad
        return Verdict('equal', 'through callers', func=q)

    # ------------------------------------------------------------------ what the comparison cannot judge
    def rewritten(self, less, more):
        """is there anything in the changed sources that could do the work of the loops that are gone (or are new)?"""
        r = self.cache.get('sketch')
        if r is None:
            a = [f for q, f in self.A.funcs.items() if not self.source_same(q)]
            b = [f for q, f in self.B.funcs.items() if q not in self.known or not self.source_same(q)]
            r = self.cache['sketch'] = [functools.reduce(Counter.__add__, [means_of(f.node) for f in fs], Counter())
                                        for fs in (a, b)]
        ma, mb = r
        return less and bool(mb - ma) or more and bool(ma - mb)

    def loops_of(self, q):
        """what iterates in q and in the changed or new functions it is made of, before and now"""
        qa = {x for x in self.resolved('A', q, frozenset()) if x in self.A.funcs and not self.source_same(x)} | {q}
        qb = {x for x in self.resolved('B', q, frozenset()) if x in self.known and not self.source_same(x)} | {q}
        fa = [self.A.funcs[x] for x in qa]
        fb = [f for f in map(self.cur, qb) if f is not None] + \
            [f for x, f in self.B.funcs.items() if x not in self.known]
        return [functools.reduce(Counter.__add__, [iterates(f.node) for f in fs], Counter()) for fs in (fa, fb)]

    def beyond(self, q, d):
        ga, gb = d.ga, d.gb
        sa, sb = skeleton(ga), skeleton(gb)
        oa, ob = bag_minus(sa, sb), bag_minus(sb, sa)
        if (oa or ob) and not self.rewritten(bool(oa), bool(ob)):
            oa = ob = None
        if oa and ob:
            return 'loop structure rewritten (%s instead of %s)' % (', '.join(sorted(ob)), ', '.join(sorted(oa)))
        if (oa or ob) and d.only_ref and d.only_cur:
            # with a loop more or less, effects that differ on both sides may be the same work arranged otherwise;
            # effects that are only gone, or only new, are judged all the same
            return 'loop structure rewritten (%s %s)' % ('with ' if ob else 'without ', ', '.join(sorted(ob or oa)))
        if d.only_ref and d.only_cur:
            la, lb = self.loops_of(q)
            if la - lb and lb - la:
                return 'loops written by other means (%s instead of %s)' % (', '.join(sorted(lb - la)), ', '.join(sorted(la - lb)))
        ea, eb = externals(ga), externals(gb)
        new = eb - ea
        if new:
            return 'uses %s, which is outside the model' % ', '.join(sorted(new))
        return None


def _body(n):
    b = n.body
    if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
        b = b[1:]
    return ast.Module(body=[ast.FunctionDef(name='f', args=n.args, body=b, decorator_list=n.decorator_list, returns=None,
                                            type_params=[])], type_ignores=[])


PLAIN = (ast.Name, ast.Constant, ast.Pass, ast.Break, ast.Return, ast.Expr, ast.expr_context, ast.Load, ast.arguments,
         ast.arg, ast.Attribute, ast.UnaryOp, ast.Not, ast.keyword)


ITERATE = ('enumerate', 'zip', 'range', 'map', 'filter', 'next', 'reversed')


def iterates(fn):
    out = Counter()
    for n in ast.walk(fn):
        if isinstance(n, (ast.For, ast.While, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            out[type(n).__name__] += 1
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ITERATE:
            out[n.func.id] += 1
    return out


def means_of(fn):
    """kinds of constructs, for telling a rewritten loop from one that is only gone"""
    out = Counter()
    for n in ast.walk(fn):
        if isinstance(n, ast.Call):
            out[n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else '?'] += 1
        elif not isinstance(n, PLAIN):
            out[type(n).__name__] += 1
    return out


def skeleton(g):
    out = {}
    for u in g.uniqs.values():
        if u.kind == 'loop' and u.kind2 != 'once':
            dep = 0
            p = u.parent
            while p is not None:
                dep += 1
                p = p.parent
            k = '%s at depth %d' % (u.kind2, dep)
            out[k] = out.get(k, 0) + 1
    return out


def bag_minus(a, b):
    return {k for k, n in a.items() if n > b.get(k, 0)}


STD = {'itertools', 'functools', 'operator', 'heapq', 'collections', 'contextlib', 'math', 'sys', 're', 'types',
       'statistics', 'weakref', 'array', 'numpy', 'dataclasses'}


def externals(g):
    out = set()
    seen = set()
    st = []
    for e, c, ts, tgt in g.items:
        if e.callee:
            r = e.callee.split('.')[0]
            if r in STD:
                out.add(e.callee)
        st.append(c)
        st.extend(ts)
    from .mt import MT, Term, atom_term
    while st:
        x = st.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, MT):
            if x.atom is None:
                st.append(x.term)
            else:
                st.extend((atom_term(x.atom), x.hi, x.lo))
        elif isinstance(x, tuple):
            if isinstance(x, Term) and x and x[0] == 'app' and isinstance(x[1], str) and x[1].split('.')[0] in STD:
                out.add(x[1])
            st.extend(y for y in x if isinstance(y, (MT, tuple)))
    return out
