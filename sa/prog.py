"""Program table: modules, classes, functions, imports, and a name-based mod/ref analysis."""
import ast
import os

FILES = [
    'fibertree/core/any.py', 'fibertree/core/coord_payload.py', 'fibertree/core/fiber.py',
    'fibertree/core/iterators.py', 'fibertree/core/metrics.py', 'fibertree/core/payload.py',
    'fibertree/core/rank.py', 'fibertree/core/rank_attrs.py', 'fibertree/core/tensor.py',
    'fibertree/model/compute.py', 'fibertree/model/format.py', 'fibertree/model/intersect.py',
    'fibertree/model/traffic.py',
    'fibertree/codec/tensor_codec.py', 'fibertree/codec/compression_types.py',
    'fibertree/codec/formats/compression_format.py', 'fibertree/codec/formats/uncompressed.py',
    'fibertree/codec/formats/coord_list.py', 'fibertree/codec/formats/bitvector.py',
    'fibertree/graphics/tensor_image.py', 'fibertree/graphics/tree_image.py',
    'fibertree/graphics/uncompressed_image.py', 'fibertree/graphics/image_utils.py',
]

LIST_MUT = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'update',
            'add', 'discard', 'setdefault', 'popitem', 'appendleft', 'popleft', 'write',
            'writelines', 'writerow', 'writerows', 'close', 'flush', 'seek', 'truncate', 'readline'}
PURE_METH = {'index', 'count', 'copy', 'get', 'items', 'keys', 'values', 'split', 'rsplit', 'strip',
             'lstrip', 'rstrip', 'startswith', 'endswith', 'lower', 'upper', 'join', 'format',
             'indices', 'find', 'replace', 'group', 'isdigit', 'isinstance', 'bit_length',
             'union', 'intersection', 'difference', 'issubset', 'rfind', 'zfill', 'title',
             'is_integer', 'bisect_left', 'bisect_right', 'partition', 'isspace'}
PURE_MODS = {'bisect', 'math', 're', 'itertools', 'operator', 'functools', 'numbers', 'string'}
PURE_BUILTINS = {'len', 'isinstance', 'issubclass', 'range', 'enumerate', 'zip', 'list', 'tuple', 'sum',
                 'any', 'all', 'min', 'max', 'sorted', 'reversed', 'map', 'filter', 'str', 'int', 'float',
                 'bool', 'abs', 'round', 'type', 'id', 'set', 'dict', 'frozenset', 'ord', 'chr', 'repr',
                 'hash', 'divmod', 'pow', 'callable', 'hasattr', 'getattr', 'slice', 'bin', 'hex', 'format',
                 'super', 'object', 'vars', 'iter'}
IGNORED_ROOTS = {'logging', 'warnings', 'module_logger', 'logger'}


# value-returning operations: what they change are objects they made themselves (C10 decides that they do)
SETTLED = {'iterators:' + n for n in ('__and__', '__or__', '__xor__', '__sub__', 'intersection', 'union')} | \
          {'fiber:Fiber.' + n for n in ('__and__', '__or__', '__xor__', '__sub__', 'intersection', 'union', 'fromIterator', 'project',
                                        'prune', 'splitUniform', 'splitNonUniform', 'splitEqual', 'splitUnEqual',
                                        'swapRanks', 'flattenRanks', 'unflattenRanks', 'mergeRanks')}


# iterators that only read the fibers they walk over (C10 decides that); they do move the metrics
READERS = {'iterators:' + n for n in ('__iter__', '__reversed__', 'iterActive', 'iterActiveShape', 'iterOccupancy', 'iterRange',
                                      'iterRangeShape', 'iterShape')}
FIBER_STATE = {'a:_default', 'a:_default_is_set', 'a:_owner', 'a:_shape', 'a:coords', 'a:payloads', 'a:fibers', 'v'}


class Func:
    def __init__(self, name, qual, cls, mod, node, kind):
        self.name = name
        self.qual = qual
        self.cls = cls
        self.mod = mod
        self.node = node
        self.kind = kind            # 'func' | 'method' | 'static' | 'class' | 'prop'
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        nd = len(a.defaults)
        self.defaults = {}
        for p, d in zip(self.params[len(self.params) - nd:], a.defaults):
            self.defaults[p] = d
        for p, d in zip(self.kwonly, a.kw_defaults):
            if d is not None:
                self.defaults[p] = d
        self.is_gen = is_gen(node)
        self.mods = set()
        self.reads = set()

    def __repr__(self):
        return self.qual


def own_nodes(node):
    """Walk a function body without descending into nested functions/classes/lambdas."""
    st = list(node.body) if isinstance(node.body, list) else [node.body]
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda, ast.AsyncFunctionDef)):
            continue
        st.extend(ast.iter_child_nodes(n))


def is_gen(node):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(node))


class Module:
    def __init__(self, path, tree):
        self.path = path
        self.name = path[:-3].replace('/', '.')
        self.short = os.path.basename(path)[:-3]
        self.tree = tree
        self.names = {}      # name -> ('mod', modname) | ('sym', modshort, name) | Func | ('class', name) | ('const', node) | ('var',)


class Class:
    def __init__(self, name, mod, node):
        self.name = name
        self.mod = mod
        self.node = node
        self.bases = [b.id if isinstance(b, ast.Name) else getattr(b, 'attr', None) for b in node.bases]
        self.methods = {}
        self.attrs = {}      # name -> ast value node


class Program:
    def __init__(self, root, files=FILES, overlay=None):
        self.root = root
        overlay = overlay or {}
        self.mods = {}
        self.classes = {}
        self.funcs = {}        # qual -> Func   ("mod:Class.name" / "mod:name")
        self.by_name = {}      # name -> [Func]
        self.errors = []
        for f in files:
            p = os.path.join(root, f)
            try:
                if f in overlay:
                    tree = overlay[f] if isinstance(overlay[f], ast.AST) else ast.parse(overlay[f], p)
                else:
                    with open(p, encoding='utf8') as fh:
                        tree = ast.parse(fh.read(), p)
            except (OSError, SyntaxError) as e:
                self.errors.append('%s: %s' % (f, e))
                continue
            m = Module(f, tree)
            self.mods[m.short] = m
        for m in self.mods.values():
            self._scan(m)
        for m in self.mods.values():
            self._imports_in_classes(m)
        for fn in self.funcs.values():
            self.by_name.setdefault(fn.name, []).append(fn)
        self.local_alias = {}
        for c in self.classes.values():
            for n, f in c.methods.items():
                if f.name != n or f not in self.by_name.get(n, []):
                    self.by_name.setdefault(n, []).append(f)
        self._list_attrs()
        self._modref()

    # ------------------------------------------------------------------
    def _scan(self, m):
        for st in m.tree.body:
            self._scan_stmt(m, st)

    def _scan_stmt(self, m, st):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            f = Func(st.name, '%s:%s' % (m.short, st.name), None, m, st, 'func')
            self.funcs[f.qual] = f
            m.names[st.name] = f
        elif isinstance(st, ast.ClassDef):
            c = Class(st.name, m, st)
            self.classes[st.name] = c
            m.names[st.name] = ('class', st.name)
            for s in st.body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    kind = 'method'
                    for d in s.decorator_list:
                        if isinstance(d, ast.Name) and d.id == 'staticmethod':
                            kind = 'static'
                        elif isinstance(d, ast.Name) and d.id == 'classmethod':
                            kind = 'class'
                        elif isinstance(d, ast.Name) and d.id == 'property':
                            kind = 'prop'
                    f = Func(s.name, '%s:%s.%s' % (m.short, st.name, s.name), st.name, m, s, kind)
                    self.funcs[f.qual] = f
                    c.methods[s.name] = f
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            c.attrs[t.id] = s.value
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                    c.attrs[s.target.id] = s.value
        elif isinstance(st, ast.Import):
            for a in st.names:
                m.names[(a.asname or a.name).split('.')[0]] = ('mod', a.name)
        elif isinstance(st, ast.ImportFrom):
            for a in st.names:
                m.names[a.asname or a.name] = ('sym', st.module or '', a.name)
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    if t.id in m.names:
                        m.names[t.id] = ('var', t.id)
                    else:
                        m.names[t.id] = ('const', st.value)
        elif isinstance(st, (ast.If, ast.Try)):
            for s in st.body:
                self._scan_stmt(m, s)

    def _imports_in_classes(self, m):
        for st in m.tree.body:
            if not isinstance(st, ast.ClassDef):
                continue
            c = self.classes[st.name]
            for s in st.body:
                if isinstance(s, ast.ImportFrom):
                    src = (s.module or '').split('.')[-1]
                    for a in s.names:
                        sm = self.mods.get(src)
                        if sm and isinstance(sm.names.get(a.name), Func):
                            f = sm.names[a.name]
                            f.kind = 'method'
                            f.cls = c.name
                            c.methods[a.asname or a.name] = f

    def find_method(self, cls, name, seen=()):
        c = self.classes.get(cls)
        if c is None or cls in seen:
            return None
        if name in c.methods:
            return c.methods[name]
        for b in c.bases:
            r = self.find_method(b, name, seen + (cls,))
            if r:
                return r
        return None

    def subclasses_define(self, cls, name):
        for c in self.classes.values():
            if cls in c.bases and (name in c.methods or self.subclasses_define(c.name, name)):
                return True
        return False

    def full_items(self, name):
        """is every item stored into attribute `name` visibly something other than None?"""
        c = self.__dict__.get('_full_items')
        if c is None:
            c = self._full_items = {}

            def made(v):
                return isinstance(v, (ast.Dict, ast.List, ast.Set, ast.Tuple, ast.ListComp, ast.DictComp, ast.Lambda,
                                      ast.JoinedStr, ast.Compare)) or \
                    isinstance(v, ast.Constant) and v.value is not None or \
                    isinstance(v, ast.BinOp) and (made(v.left) or made(v.right)) or \
                    isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('dict', 'list', 'set', 'tuple', 'len')
            for m in self.mods.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Assign):
                        ts, v = n.targets, n.value
                    elif isinstance(n, ast.AugAssign):
                        ts, v = [n.target], ast.BinOp(left=n.target, op=n.op, right=n.value) if made(n.value) else n.value
                    else:
                        continue
                    for t in ts:
                        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute):
                            c[t.value.attr] = c.get(t.value.attr, True) and made(v)
                        elif isinstance(t, ast.Attribute) and not (isinstance(v, ast.Dict) and not v.keys or
                                                                    isinstance(v, ast.Constant) and v.value is None):
                            c[t.attr] = False
        return c.get(name, False)

    def pure_values(self, name):
        """are the functions kept in attribute `name` (or in the container it holds) visibly free of side effects?"""
        c = self.__dict__.get('_pure_values')
        if c is None:
            c = self._pure_values = {}

            def pure(fn):
                for n in ast.walk(fn):
                    if isinstance(n, (ast.Attribute, ast.Subscript)) and not isinstance(n.ctx, ast.Load):
                        return False
                    if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global, ast.AugAssign)) and \
                            not (isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name)):
                        return False
                    if isinstance(n, ast.Call) and not (isinstance(n.func, ast.Name) and n.func.id in PURE_BUILTINS | {'reduce'}):
                        return False
                return True

            def visit(fn, inner):
                for n in ast.walk(fn):
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            if isinstance(t, ast.Subscript):
                                t = t.value
                            if not isinstance(t, ast.Attribute):
                                continue
                            v = n.value
                            if isinstance(v, ast.Name) and v.id in inner:
                                ok = pure(inner[v.id])
                            elif isinstance(v, ast.Lambda):
                                ok = pure(v)
                            elif isinstance(v, ast.Dict) and not v.keys or isinstance(v, ast.Constant) and v.value is None:
                                continue
                            else:
                                ok = False
                            c[t.attr] = c.get(t.attr, True) and ok
            for m in self.mods.values():
                for k in m.tree.body:
                    for f in k.body if isinstance(k, ast.ClassDef) else [k]:
                        if isinstance(f, ast.FunctionDef):
                            visit(f, {n.name: n for n in ast.walk(f) if isinstance(n, ast.FunctionDef) and n is not f})
        return c.get(name, False)

    def _list_attrs(self):
        """attribute names ever bound to a list/dict/set display (used for region typing)."""
        self.list_attrs = set()
        self.attr_names = set()

        def made(v):
            return isinstance(v, (ast.List, ast.ListComp, ast.Dict, ast.DictComp, ast.Set)) or \
                isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('list', 'dict', 'set') or \
                isinstance(v, ast.BinOp) and isinstance(v.op, ast.Mult) and isinstance(v.left, ast.List)
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    self.attr_names.add(n.attr)
                if isinstance(n, ast.Assign):
                    tg, v = n.targets, n.value
                elif isinstance(n, ast.AnnAssign):
                    tg, v = [n.target], n.value
                else:
                    continue
                if made(v):
                    for t in tg:
                        if isinstance(t, ast.Attribute):
                            self.list_attrs.add(t.attr)

    # ------------------------------------------------------------------ mod/ref
    def _modref(self):
        for f in self.funcs.values():
            f.dm = set()        # direct mods (other)
            f.ds = set()        # direct mods via self
            f.dr = set()
            f.calls = []        # (name, on_self, is_ctor)
            self._direct(f)
        for f in self.funcs.values():
            f.modself = set(f.ds)
            f.modother = set(f.dm)
            f.reads = set(f.dr)
        changed = True
        while changed:
            changed = False
            for f in self.funcs.values():
                a, b, r = len(f.modself), len(f.modother), len(f.reads)
                for (nm, on_self, ctor, cls, node) in f.calls:
                    for g in self.call_cands(nm, ctor, cls, f.cls if on_self else None):
                        if g.qual in SETTLED:
                            f.modother.add('fresh')
                            f.reads |= g.reads
                            continue
                        other = self.at_call(f, g, g.modother, node, ctor, cls)
                        if ctor:
                            f.modother |= other
                        elif on_self:
                            f.modself |= g.modself
                            f.modother |= other
                        else:
                            f.modother |= g.modself | other
                        f.reads |= g.reads
                if f.qual in READERS:
                    f.modself -= FIBER_STATE
                    f.modother -= FIBER_STATE
                if (len(f.modself), len(f.modother), len(f.reads)) != (a, b, r):
                    changed = True
        for f in self.funcs.values():
            if f.qual in SETTLED:
                f.modself, f.modother = set(), {'fresh'}
            f.mods = f.modself | f.modother
            f.pure = not f.mods and not f.is_gen
        self._fresh()

    def at_call(self, f, g, mods, node, ctor, cls):
        """what a call of g in f changes: changes to g's parameters become changes to the arguments"""
        out = set()
        for m in mods:
            if not m.startswith(('p:', 'cb:')):
                out.add(m)
                continue
            cb = m.startswith('cb:')
            pn = m.split(':', 1)[1]
            if node is None or any(isinstance(a, ast.Starred) for a in node.args) or \
                    any(k.arg is None for k in node.keywords):
                out.add('*' if cb else 'v')
                continue
            arg = None
            for k in node.keywords:
                if k.arg == pn:
                    arg = k.value
            if arg is None and pn in g.params:
                i = g.params.index(pn)
                if ctor or g.kind == 'class' or (g.kind in ('method', 'prop') and (cls is None or cls[0] == '~') and
                                                 isinstance(node.func, ast.Attribute)):
                    i -= 1
                if 0 <= i < len(node.args):
                    arg = node.args[i]
                elif i < 0:
                    arg = node.func
            if arg is None:
                if pn not in g.params and pn not in g.kwonly:
                    out.add('*' if cb else 'v')
                continue                        # the default: a constant or a lambda without effects
            params = set(f.params) | set(f.kwonly)
            if cb:
                if isinstance(arg, ast.Lambda) or (isinstance(arg, ast.Name) and arg.id in f.local_defs):
                    continue                    # its body is counted where it stands
                out.add('cb:' + arg.id if isinstance(arg, ast.Name) and arg.id in params else '*')
            else:
                while isinstance(arg, ast.Subscript):
                    arg = arg.value
                if isinstance(arg, ast.Attribute):
                    out.add('a:' + arg.attr)
                elif isinstance(arg, ast.Name) and arg.id in f.local_lists:
                    continue
                elif isinstance(arg, ast.Name) and arg.id in params:
                    out.add('p:' + arg.id)
                elif isinstance(arg, (ast.List, ast.ListComp, ast.Constant, ast.Tuple)):
                    continue
                else:
                    out.add('v')
        return out

    def _fresh(self):
        """functions that may return a mutable object they made (so calling once or once per iteration differs)"""
        def made(f, v, d=0):
            if isinstance(v, (ast.List, ast.ListComp, ast.Dict, ast.DictComp, ast.Set, ast.SetComp)):
                return True
            if isinstance(v, ast.IfExp):
                return made(f, v.body, d) or made(f, v.orelse, d)
            if isinstance(v, ast.Call):
                nm = v.func.id if isinstance(v.func, ast.Name) else v.func.attr if isinstance(v.func, ast.Attribute) else None
                if nm in ('list', 'dict', 'set', 'sorted', 'deepcopy', 'cls') or nm in self.classes:
                    return True
                return any(g.fresh for g in self.by_name.get(nm, []))
            if isinstance(v, ast.Name) and d < 3:
                return any(made(f, n.value, d + 1) for n in ast.walk(f.node) if isinstance(n, ast.Assign) and
                           any(isinstance(t, ast.Name) and t.id == v.id for t in n.targets))
            return False
        for f in self.funcs.values():
            f.fresh = False
        changed = True
        while changed:
            changed = False
            for f in self.funcs.values():
                if not f.fresh and not f.is_gen and any(made(f, n.value) for n in ast.walk(f.node)
                                                        if isinstance(n, ast.Return) and n.value is not None):
                    f.fresh = changed = True

    def call_cands(self, nm, ctor=False, cls=None, selfcls=None):
        if ctor:
            g = self.find_method(nm, '__init__')
            return [g] if g else []
        if cls is not None:
            g = self.find_method(cls.lstrip('~'), nm)
            if g:
                return [g]
        if selfcls is not None:
            g = self.find_method(selfcls, nm)
            if g and not self.subclasses_define(selfcls, nm):
                return [g]
        return self.by_name.get(nm, [])

    def _direct(self, f):
        params = set(f.params) | set(f.kwonly)
        selfname = f.params[0] if f.kind in ('method', 'class', 'prop') and f.params else None
        local_lists = set()
        other = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                v = n.value
                if isinstance(v, (ast.List, ast.ListComp, ast.Dict, ast.DictComp, ast.Set, ast.SetComp,
                                  ast.Tuple, ast.JoinedStr)) or \
                        (isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and
                         v.func.id in ('list', 'dict', 'set', 'sorted', 'defaultdict', 'deque', 'OrderedDict')) or \
                        (isinstance(v, ast.BinOp) and (isinstance(v.left, ast.List) or isinstance(v.right, ast.List))):
                    local_lists.add(n.targets[0].id)
                else:
                    other.add(n.targets[0].id)
        listy = set(local_lists)
        local_lists -= other
        # a name counts as a list of this function's own only if it is never anything else
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in params:
                local_lists.discard(n.id)
        f.local_lists = local_lists
        f.local_defs = {n.name for n in ast.walk(f.node) if isinstance(n, ast.FunctionDef) and n is not f.node}

        def region(b):
            while isinstance(b, ast.Subscript):
                b = b.value
            if isinstance(b, ast.Attribute):
                base = b.value
                root_self = isinstance(base, ast.Name) and base.id == selfname
                return ('a:' + b.attr, root_self)
            if isinstance(b, ast.Name):
                if b.id in local_lists:
                    return (None, False)
                if b.id in params:
                    return ('p:' + b.id, False)
                return ('v', False)
            return ('v', False)

        def store(t, content):
            if isinstance(t, (ast.Tuple, ast.List)):
                for e in t.elts:
                    store(e, content)
            elif isinstance(t, ast.Starred):
                store(t.value, content)
            elif isinstance(t, ast.Attribute):
                root_self = isinstance(t.value, ast.Name) and t.value.id == selfname
                (f.ds if root_self else f.dm).add('a:' + t.attr)
            elif isinstance(t, ast.Subscript):
                r, s = region(t.value)
                if r:
                    (f.ds if s else f.dm).add(r)

        for n in ast.walk(f.node):
            if isinstance(n, (ast.Assign,)):
                for t in n.targets:
                    store(t, n.value)
            elif isinstance(n, ast.AugAssign):
                store(n.target, n.value)
                if isinstance(n.op, ast.LShift):
                    f.calls.append(('__ilshift__', False, False, None, None))
            elif isinstance(n, ast.AnnAssign):
                store(n.target, n.value)
            elif isinstance(n, ast.Delete):
                for t in n.targets:
                    store(t, None)
            elif isinstance(n, (ast.For, ast.comprehension)):
                if isinstance(n.target, (ast.Attribute, ast.Subscript)):
                    store(n.target, None)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                f.dr.add('a:' + n.attr)
            elif isinstance(n, ast.Yield):
                pass
            elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.BitAnd, ast.BitOr, ast.BitXor, ast.LShift)):
                f.calls.append(({'BitAnd': '__and__', 'BitOr': '__or__', 'BitXor': '__xor__',
                                 'LShift': '__lshift__'}[type(n.op).__name__], False, False, None, None))
            if isinstance(n, ast.Call):
                fn = n.func
                if isinstance(fn, ast.Name):
                    if fn.id in self.classes:
                        f.calls.append((fn.id, False, True, None, n))
                    elif fn.id == 'cls' and f.cls:
                        f.calls.append((f.cls, False, True, None, n))
                    elif isinstance(f.mod.names.get(fn.id), Func):
                        f.calls.append((fn.id, False, False, None, n))
                    elif isinstance(f.mod.names.get(fn.id), tuple) and f.mod.names[fn.id][0] == 'sym':
                        f.calls.append((f.mod.names[fn.id][2], False, False, None, n))
                    elif fn.id in ('open', 'exit', 'input', 'exec', 'eval'):
                        f.dm.add('io')
                    elif fn.id in ('setattr', 'delattr'):
                        f.dm.add('*')
                    elif fn.id in params:
                        if fn.id != 'default':      # a default that can be called is a class
                            f.dm.add('cb:' + fn.id)
                    elif fn.id == 'next':
                        f.dm.add('iter')
                elif isinstance(fn, ast.Attribute):
                    root = fn.value
                    while isinstance(root, (ast.Attribute, ast.Subscript, ast.Call)):
                        root = root.value if not isinstance(root, ast.Call) else root.func
                    rid = root.id if isinstance(root, ast.Name) else None
                    if rid in IGNORED_ROOTS:
                        continue
                    mn = f.mod.names.get(rid)
                    if isinstance(mn, tuple) and mn[0] == 'mod':
                        if mn[1].split('.')[0] in ('random', 'os', 'yaml', 'shutil', 'sys', 'csv', 'subprocess') \
                                and 'path' not in ast.dump(fn):
                            f.dm.add('io')
                        continue
                    onself = isinstance(fn.value, ast.Name) and fn.value.id == selfname
                    hint = receiver_class(fn.value)
                    if hint and self.find_method(hint, fn.attr):
                        f.calls.append((fn.attr, False, False, '~' + hint, n))
                    elif fn.attr in LIST_MUT and not onself:
                        r, s = region(fn.value)
                        if r:
                            (f.ds if s else f.dm).add(r)
                        if r is not None and not (r.startswith('a:') and r[2:] in self.list_attrs) and \
                                not (isinstance(fn.value, ast.Name) and fn.value.id in listy):
                            f.calls.append((fn.attr, False, False, None, n))
                    elif fn.attr in PURE_METH and fn.attr not in self_names(self):
                        pass
                    else:
                        cls = fn.value.id if isinstance(fn.value, ast.Name) and fn.value.id in self.classes else None
                        f.calls.append((fn.attr, onself, False, cls, n))


def receiver_class(e):
    """class of a receiver by the naming conventions of the repository"""
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
        return {'getOwner': 'Rank', 'getNextRank': 'Rank', 'getRankAttrs': 'RankAttrs',
                'getAttrs': 'RankAttrs'}.get(e.func.attr)
    nm = e.attr if isinstance(e, ast.Attribute) else e.id if isinstance(e, ast.Name) else None
    return {'next_rank': 'Rank', 'owner': 'Rank', '_owner': 'Rank', '_rank_attrs': 'RankAttrs',
            '_attrs': 'RankAttrs'}.get(nm)


def self_names(prog):
    r = getattr(prog, '_allnames', None)
    if r is None:
        r = set()
        for c in prog.classes.values():
            r |= set(c.methods)
        prog._allnames = r
    return r


def _strip_pos(node):
    return ast.dump(node, annotate_fields=True, include_attributes=False)


def _var_dump(self, name):
    short, _, n = name.partition('.')
    m = self.mods.get(short)
    if m is None:
        return None
    x = m.names.get(n)
    if isinstance(x, tuple) and x[0] == 'const':
        return _strip_pos(x[1])
    return None


Program.var_dump = _var_dump


def never_none(f):
    """f gives something other than None whenever it returns"""
    r = f.__dict__.get('never_none')
    if r is None:
        r = f.never_none = _never_none(f)
    return r


def _never_none(f):
    if f.is_gen or not isinstance(f.node, (ast.FunctionDef,)) or f.kind == 'prop' and False:
        return False
    own = []

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                continue
            own.append(c)
            walk(c)
    walk(f.node)

    def ends(body):
        s = body[-1]
        if isinstance(s, (ast.Return, ast.Raise)):
            return True
        if isinstance(s, ast.If):
            return bool(s.orelse) and ends(s.body) and ends(s.orelse)
        return isinstance(s, ast.Assert) and isinstance(s.test, ast.Constant) and not s.test.value
    if not ends(f.node.body):
        return False
    a = f.node.args
    params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
    seen = set()

    def ok(e):
        if isinstance(e, ast.Constant):
            return e.value is not None
        if isinstance(e, (ast.Compare, ast.BinOp, ast.JoinedStr, ast.List, ast.Tuple, ast.Dict, ast.Set, ast.ListComp, ast.SetComp,
                          ast.DictComp)):
            return True
        if isinstance(e, ast.UnaryOp):
            return True
        if isinstance(e, ast.BoolOp):
            return all(ok(v) for v in e.values)
        if isinstance(e, ast.IfExp):
            return ok(e.body) and ok(e.orelse)
        if isinstance(e, ast.Call):
            fn = e.func
            if isinstance(fn, ast.Name):
                return fn.id in ('len', 'list', 'tuple', 'sorted', 'str', 'int', 'range', 'dict', 'set', 'Fiber', 'Payload', 'cls', 'Tensor',
                                 'Rank', 'CoordPayload')
            return isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == 'bisect'
        if isinstance(e, ast.Name):
            if e.id in params or e.id in ('None',):
                return False
            if e.id in seen:
                return True
            seen.add(e.id)
            n = 0
            for x in own:
                if isinstance(x, ast.Name) and x.id == e.id and isinstance(x.ctx, (ast.Store, ast.Del)):
                    n += 1
            k = 0
            for x in own:
                if isinstance(x, ast.Assign):
                    for t in x.targets:
                        if isinstance(t, ast.Name) and t.id == e.id:
                            if not ok(x.value):
                                return False
                            k += 1
                elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == e.id:
                    k += 1
                elif isinstance(x, ast.For) and isinstance(x.iter, ast.Call) and isinstance(x.iter.func, ast.Name):
                    if x.iter.func.id == 'range' and isinstance(x.target, ast.Name) and x.target.id == e.id:
                        k += 1
                    elif x.iter.func.id == 'enumerate' and isinstance(x.target, ast.Tuple) and \
                            isinstance(x.target.elts[0], ast.Name) and x.target.elts[0].id == e.id:
                        k += 1
            return n > 0 and k == n
        return False
    return all(x.value is not None and ok(x.value) for x in own if isinstance(x, ast.Return))


def _share(self, ref):
    """use the reference's mod/ref facts for the functions both programs have (primitives of the comparison)"""
    self.list_attrs = ref.list_attrs | (self.list_attrs - ref.attr_names)
    self.full_items, self.pure_values = ref.full_items, ref.pure_values
    for q, g in ref.funcs.items():
        f = self.funcs.get(q)
        if f is not None:
            f.never_none = never_none(g)
            f.mods, f.modself, f.modother, f.reads, f.pure, f.fresh = g.mods, g.modself, g.modother, g.reads, g.pure, g.fresh
    for n, fs in list(self.by_name.items()):
        keep = [f for f in fs if f.qual in ref.funcs]
        if keep:
            self.by_name[n] = keep
    return self


Program.share = _share
