"""Development only: random behaviour-preserving rewrites; reports those whose value graph differs (false alarms)."""
import ast, copy, random, sys, os, difflib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from sa.prog import Program, FILES
from sa import cmp
from sa.engine import Engine
from sa.classes import structure
ROOT = '/repo'
STACK = int(os.environ.get('STACK', '1'))


def blocks(fn):
    """all statement lists in the function, not in nested defs"""
    out = []
    st = [fn]
    while st:
        n = st.pop()
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                out.append(b)
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                st.append(c)
    return out


def walk_own(fn):
    st = list(ast.iter_child_nodes(fn)) if isinstance(fn, ast.AST) else list(fn)
    while st:
        n = st.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            st.extend(ast.iter_child_nodes(n))


def stmts(fn):
    for b in blocks(fn):
        for i, s in enumerate(b):
            yield b, i, s


def names_load(nodes):
    return {n.id for x in nodes for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)} | \
        {n.target.id for x in nodes for n in ast.walk(x) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name)}


def names_store(nodes):
    r = {n.id for x in nodes for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}
    r |= {n.name for x in nodes for n in ast.walk(x) if isinstance(n, (ast.FunctionDef, ast.ClassDef))}
    r |= {n.target.id for x in nodes for n in ast.walk(x) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name)}
    return r


def has(nodes, types):
    return any(isinstance(n, types) for x in nodes for n in ast.walk(x))


CNT = [0]


def fresh(p='tmp'):
    CNT[0] += 1
    return '%s_%d' % (p, CNT[0])


def nested(fn):
    return any(isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)) for n in ast.walk(fn) if n is not fn)


# ---------------------------------------------------------------- transforms: f(fn, rng, ctx) -> bool
def t_rename(fn, rng, ctx):
    loc = names_store(fn.body) - {a.arg for a in fn.args.args}
    if has(fn.body, (ast.Nonlocal, ast.Global, ast.Import, ast.ImportFrom, ast.ClassDef)):
        return False
    loc = [x for x in loc if not any(isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == x for n in ast.walk(fn))]
    if not loc:
        return False
    m = {x: x + '_renamed' for x in loc}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id in m:
            n.id = m[n.id]
        if isinstance(n, ast.arg) and n.arg in m and n not in fn.args.args:
            return False
        if isinstance(n, ast.ExceptHandler) and n.name in m:
            n.name = m[n.name]
    return True


def t_swapif(fn, rng, ctx):
    c = [s for _, _, s in stmts(fn) if isinstance(s, ast.If) and s.orelse]
    if not c:
        return False
    s = rng.choice(c)
    s.test = ast.UnaryOp(ast.Not(), s.test)
    s.body, s.orelse = s.orelse, s.body
    return True


def t_elsereturn(fn, rng, ctx):
    c = []
    for b, i, s in stmts(fn):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Continue, ast.Break, ast.Raise)) and i + 1 < len(b):
            c.append((b, i, s))
    if not c:
        return False
    b, i, s = rng.choice(c)
    s.orelse = b[i + 1:]
    del b[i + 1:]
    return True


def t_unelse(fn, rng, ctx):
    c = []
    for b, i, s in stmts(fn):
        if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Continue, ast.Break, ast.Raise)):
            c.append((b, i, s))
    if not c:
        return False
    b, i, s = rng.choice(c)
    b[i + 1:i + 1] = s.orelse
    s.orelse = []
    return True


def t_splitand(fn, rng, ctx):
    c = [s for _, _, s in stmts(fn) if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And)]
    if not c:
        return False
    s = rng.choice(c)
    v = s.test.values
    s.test = v[0]
    s.body = [ast.If(v[1] if len(v) == 2 else ast.BoolOp(ast.And(), v[1:]), s.body, [])]
    return True


def t_demorgan(fn, rng, ctx):
    c = [n for n in ast.walk(fn) if isinstance(n, (ast.If, ast.While)) and isinstance(n.test, ast.BoolOp)]
    if not c:
        return False
    n = rng.choice(c)
    op = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
    n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in n.test.values]))
    return True


FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}


def simple(e):
    return not has([e], (ast.Call, ast.Yield, ast.Await, ast.NamedExpr)) or \
        all(isinstance(n.func, ast.Name) and n.func.id in ('len', 'min', 'max', 'abs', 'str', 'isinstance') for n in ast.walk(e) if isinstance(n, ast.Call))


def t_flipcmp(fn, rng, ctx):
    c = [n for n in ast.walk(fn) if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in FLIP
         and (simple(n.left) or simple(n.comparators[0]))]
    if not c:
        return False
    n = rng.choice(c)
    n.left, n.comparators[0] = n.comparators[0], n.left
    n.ops = [FLIP[type(n.ops[0])]()]
    return True


NEG = {ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}


def t_negcmp(fn, rng, ctx):
    """a < b  ->  not a >= b  (total orders)"""
    par = {}
    for n in ast.walk(fn):
        for f, v in ast.iter_fields(n):
            if isinstance(v, ast.Compare) and len(v.ops) == 1:
                par[id(v)] = (n, f, v)
    c = list(par.values())
    if not c:
        return False
    n, f, v = rng.choice(c)
    v.ops = [NEG[type(v.ops[0])]()]
    setattr(n, f, ast.UnaryOp(ast.Not(), v))
    return True


def t_noop(fn, rng, ctx):
    b = rng.choice(blocks(fn))
    i = rng.randrange(len(b) + 1)
    if i < len(b) and isinstance(b[i], ast.Expr) and isinstance(b[i].value, ast.Constant):
        i += 1
    if b is fn.body and i == 0 and ast.get_docstring(fn):
        i = 1
    s = rng.choice(['pass', '_ = None', 'assert True', '_unused_1 = 0', 'if False:\n    pass', '"comment"', 'del_me = ()\ndel del_me',
                    'for _ in ():\n    pass', '_x = [1, 2]', 'if True:\n    pass'])
    b[i:i] = ast.parse(s).body
    return True


def t_temp(fn, rng, ctx):
    """bind the value of a return / assignment / test / first call argument to a temporary"""
    c = []
    for b, i, s in stmts(fn):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, ast.Name):
            c.append((b, i, s, 'value'))
        elif isinstance(s, ast.If) and not isinstance(s.test, ast.Name):
            par_elif = any(bb is not b and False for bb in ())
            c.append((b, i, s, 'test'))
        elif isinstance(s, ast.Assign) and not isinstance(s.value, ast.Name) and not has([s.value], (ast.Yield,)):
            c.append((b, i, s, 'value'))
        elif isinstance(s, ast.For):
            c.append((b, i, s, 'iter'))
        elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and s.value.args and not isinstance(s.value.args[0], ast.Starred):
            c.append((b, i, s.value, 'arg'))
        elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Yield) and s.value.value is not None:
            c.append((b, i, s.value, 'value'))
    if not c:
        return False
    b, i, s, f = rng.choice(c)
    nm = fresh()
    if f == 'arg':
        if not isinstance(s.func, ast.Name) and not (isinstance(s.func, ast.Attribute) and simple(s.func.value)):
            return False
        v = s.args[0]
        s.args[0] = ast.Name(nm, ast.Load())
    else:
        v = getattr(s, f)
        setattr(s, f, ast.Name(nm, ast.Load()))
    b.insert(i, ast.Assign([ast.Name(nm, ast.Store())], v))
    return True


def t_subtemp(fn, rng, ctx):
    """bind an attribute chain read used in the first-evaluated position of a statement"""
    c = []
    for b, i, s in stmts(fn):
        if isinstance(s, (ast.Assign, ast.Expr, ast.Return, ast.AugAssign)) and s.value is not None and simple(s.value):
            for n in ast.walk(s.value):
                if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, ast.Load) and not has([s.value], (ast.IfExp, ast.BoolOp, ast.ListComp, ast.GeneratorExp, ast.Lambda, ast.DictComp, ast.SetComp)):
                    c.append((b, i, s, n))
    if not c:
        return False
    b, i, s, n = rng.choice(c)
    nm = fresh()
    key = ast.dump(n)

    class R(ast.NodeTransformer):
        def visit(self, x):
            if ast.dump(x) == key:
                return ast.Name(nm, ast.Load())
            return self.generic_visit(x)
    s.value = R().visit(s.value)
    b.insert(i, ast.Assign([ast.Name(nm, ast.Store())], n))
    return True


def t_ifexp2if(fn, rng, ctx):
    c = [(b, i, s) for b, i, s in stmts(fn) if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp)]
    if not c:
        return False
    b, i, s = rng.choice(c)
    a1, a2 = copy.deepcopy(s), copy.deepcopy(s)
    a1.value, a2.value = s.value.body, s.value.orelse
    b[i] = ast.If(s.value.test, [a1], [a2])
    return True


def t_if2ifexp(fn, rng, ctx):
    c = []
    for b, i, s in stmts(fn):
        if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1:
            x, y = s.body[0], s.orelse[0]
            if isinstance(x, ast.Assign) and isinstance(y, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and ast.dump(x.targets[0]) == ast.dump(y.targets[0]):
                c.append((b, i, s))
            if isinstance(x, ast.Return) and isinstance(y, ast.Return) and x.value and y.value:
                c.append((b, i, s))
    if not c:
        return False
    b, i, s = rng.choice(c)
    x, y = s.body[0], s.orelse[0]
    x.value = ast.IfExp(s.test, x.value, y.value)
    b[i] = x
    return True


def t_continue2if(fn, rng, ctx):
    c = []
    for b, i, s in stmts(fn):
        if isinstance(s, (ast.For, ast.While)):
            for j, x in enumerate(s.body):
                if isinstance(x, ast.If) and not x.orelse and len(x.body) == 1 and isinstance(x.body[0], ast.Continue) and j + 1 < len(s.body):
                    c.append((s, j, x))
    if not c:
        return False
    s, j, x = rng.choice(c)
    s.body[j:] = [ast.If(ast.UnaryOp(ast.Not(), x.test), s.body[j + 1:], [])]
    return True


def t_if2continue(fn, rng, ctx):
    c = []
    for b, i, s in stmts(fn):
        if isinstance(s, (ast.For, ast.While)) and isinstance(s.body[-1], ast.If) and not s.body[-1].orelse:
            c.append(s)
    if not c:
        return False
    s = rng.choice(c)
    x = s.body[-1]
    s.body[-1:] = [ast.If(ast.UnaryOp(ast.Not(), x.test), [ast.Continue()], [])] + x.body
    return True


def t_comp2loop(fn, rng, ctx):
    c = []
    for b, i, s in stmts(fn):
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1:
            c.append((b, i, s))
    if not c:
        return False
    b, i, s = rng.choice(c)
    g = s.value.generators[0]
    if names_store([g.target]) & (names_store(fn.body) | {a.arg for a in fn.args.args}) - names_store([g.target]) and False:
        return False
    outer = copy.deepcopy(fn)
    nm = fresh('acc')
    body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(nm, ast.Load()), 'append', ast.Load()), [s.value.elt], []))]
    for cnd in reversed(g.ifs):
        body = [ast.If(cnd, body, [])]
    # rename targets to avoid clobbering
    m = {x: fresh(x) for x in names_store([g.target])}
    loop = ast.For(g.target, g.iter, body, [])
    for n in [g.target] + body:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in m:
                x.id = m[x.id]
    s.value = ast.Name(nm, ast.Load())
    b[i:i] = [ast.Assign([ast.Name(nm, ast.Store())], ast.List([], ast.Load())), loop]
    return True


def t_loop2comp(fn, rng, ctx):
    c = []
    for b, i, s in stmts(fn):
        if isinstance(s, ast.For) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Expr) and \
                isinstance(s.body[0].value, ast.Call) and isinstance(s.body[0].value.func, ast.Attribute) and \
                s.body[0].value.func.attr == 'append' and isinstance(s.body[0].value.func.value, ast.Name) and i > 0:
            p = b[i - 1]
            nm = s.body[0].value.func.value.id
            if isinstance(p, ast.Assign) and isinstance(p.value, ast.List) and not p.value.elts and len(p.targets) == 1 and \
                    isinstance(p.targets[0], ast.Name) and p.targets[0].id == nm and not has(s.body, (ast.Yield,)):
                c.append((b, i, s, nm))
    if not c:
        return False
    b, i, s, nm = rng.choice(c)
    b[i - 1:i + 1] = [ast.Assign([ast.Name(nm, ast.Store())], ast.ListComp(s.body[0].value.args[0], [ast.comprehension(s.target, s.iter, [], 0)]))]
    return True


def t_for2while(fn, rng, ctx):
    c = []
    for b, i, s in stmts(fn):
        if isinstance(s, ast.For) and not s.orelse and isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Call) and \
                isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'range' and len(s.iter.args) in (1, 2) and \
                not has(s.body, (ast.Continue,)) and s.target.id not in names_store(s.body):
            # induction variable must not be used after the loop
            after = b[i + 1:]
            if s.target.id in names_load(after):
                continue
            c.append((b, i, s))
    if not c:
        return False
    b, i, s = rng.choice(c)
    lo = ast.Constant(0) if len(s.iter.args) == 1 else s.iter.args[0]
    hi = s.iter.args[-1]
    nm = fresh('end')
    v = s.target.id
    inc = ast.AugAssign(ast.Name(v, ast.Store()), ast.Add(), ast.Constant(1))
    b[i:i + 1] = [ast.Assign([ast.Name(nm, ast.Store())], hi), ast.Assign([ast.Name(v, ast.Store())], lo),
                  ast.While(ast.Compare(ast.Name(v, ast.Load()), [ast.Lt()], [ast.Name(nm, ast.Load())]), s.body + [inc], [])]
    return True


def t_seq2idx(fn, rng, ctx):
    """for x in xs -> for k in range(len(xs)): x = xs[k]   (xs a local list / parameter list / coords / payloads)"""
    c = []
    for b, i, s in stmts(fn):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Attribute) and s.iter.attr in ('coords', 'payloads', 'ranks', 'fibers') and not s.orelse:
            c.append(s)
    if not c:
        return False
    s = rng.choice(c)
    k = fresh('k')
    it = s.iter
    s.body.insert(0, ast.Assign([s.target], ast.Subscript(copy.deepcopy(it), ast.Name(k, ast.Load()), ast.Load())))
    s.target = ast.Name(k, ast.Store())
    s.iter = ast.Call(ast.Name('range', ast.Load()), [ast.Call(ast.Name('len', ast.Load()), [it], [])], [])
    return True


def t_zip2idx(fn, rng, ctx):
    c = []
    for b, i, s in stmts(fn):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'zip' \
                and len(s.iter.args) == 2 and isinstance(s.target, ast.Tuple) and not s.orelse and \
                [getattr(a, 'attr', None) for a in s.iter.args] == ['coords', 'payloads']:
            c.append(s)
    if not c:
        return False
    s = rng.choice(c)
    k = fresh('k')
    a, bb = s.iter.args
    s.body[0:0] = [ast.Assign([s.target.elts[0]], ast.Subscript(copy.deepcopy(a), ast.Name(k, ast.Load()), ast.Load())),
                   ast.Assign([s.target.elts[1]], ast.Subscript(copy.deepcopy(bb), ast.Name(k, ast.Load()), ast.Load()))]
    s.target = ast.Name(k, ast.Store())
    s.iter = ast.Call(ast.Name('range', ast.Load()), [ast.Call(ast.Name('len', ast.Load()), [a], [])], [])
    return True


def t_extract(fn, rng, ctx):
    """extract a run of statements into a new method / module function"""
    if nested(fn) and False:
        return False
    bl = [b for b in blocks(fn)]
    for _ in range(12):
        b = rng.choice(bl)
        i = rng.randrange(len(b))
        j = min(len(b), i + rng.randint(1, 5))
        run = b[i:j]
        if isinstance(run[0], ast.Expr) and isinstance(run[0].value, ast.Constant):
            continue
        if has(run, (ast.Return, ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global, ast.FunctionDef, ast.ClassDef, ast.Lambda, ast.Import, ast.ImportFrom)):
            continue
        # break/continue not inside a loop of the run
        def brk(nodes, inl):
            for x in nodes:
                if isinstance(x, (ast.Break, ast.Continue)) and not inl:
                    return True
                for f in ('body', 'orelse', 'handlers', 'finalbody'):
                    bb = getattr(x, f, None)
                    if isinstance(bb, list) and brk(bb, inl or isinstance(x, (ast.For, ast.While))):
                        return True
            return False
        if brk(run, False):
            continue
        if 'super' in names_load(run) or '__class__' in names_load(run):
            continue
        params = {a.arg for a in fn.args.args + fn.args.kwonlyargs} | ({fn.args.vararg.arg} if fn.args.vararg else set()) | ({fn.args.kwarg.arg} if fn.args.kwarg else set())
        allst = names_store(fn.body) | params
        comp = set()
        ld = names_load(run)
        st = names_store(run)
        # comprehension variables are local to the run
        ctargets = {x.id for r in run for n in ast.walk(r) if isinstance(n, ast.comprehension) for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        real_st = set()
        for r in run:
            for n in ast.walk(r):
                if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.For, ast.With)):
                    tg = n.targets if isinstance(n, ast.Assign) else [getattr(n, 'target', None)] if not isinstance(n, ast.With) else [it.optional_vars for it in n.items]
                    for t in tg:
                        if t is not None:
                            real_st |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                if isinstance(n, ast.ExceptHandler) and n.name:
                    real_st.add(n.name)
                if isinstance(n, ast.NamedExpr):
                    real_st.add(n.target.id)
                if isinstance(n, ast.Delete):
                    real_st.add('$del')
        if '$del' in real_st:
            continue
        # inputs: loaded names that are variables of the function, defined before (definitely): only parameters or names assigned at top of an enclosing earlier statement
        before = set(params)
        def seen(stm):
            nonlocal before
        ok = True
        # definite assignment, conservative: names stored in earlier statements of b or of fn.body at top level
        earlier = []
        path = find_path(fn, b)
        if path is None:
            continue
        for (bb, k) in path:
            for x in bb[:k]:
                if isinstance(x, (ast.Assign, ast.AnnAssign)):
                    before |= names_store([x])
                elif isinstance(x, ast.For):
                    pass
                elif isinstance(x, ast.If) and x.orelse:
                    before |= names_store(x.body) & names_store(x.orelse) if all(isinstance(y, ast.Assign) for y in x.body + x.orelse) else set()
            if k < len(bb) and isinstance(bb[k], ast.For):
                before |= names_store([bb[k].target])
        for x in b[:i]:
            if isinstance(x, (ast.Assign, ast.AnnAssign)):
                before |= names_store([x])
        ins = sorted((ld & allst & (real_st | before)) - (ctargets - real_st - before))
        if (ld & allst) - set(ins) - ctargets:
            continue
        if any(x not in before for x in ins if not first_store(run, x)):
            continue
        ins = [x for x in ins if x in before]
        # outputs: all names stored in run that are loaded elsewhere
        rest = copy.copy(fn)
        outs = []
        ids = {id(n) for r in run for n in ast.walk(r)}
        others = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and id(n) not in ids}
        outs = sorted(x for x in real_st if x in others)
        # outputs must be definitely assigned in the run or be inputs
        bad = [x for x in outs if x not in ins and not definite(run, x)]
        if any(x not in before for x in bad):
            continue
        for x in bad:
            ins.append(x)
        nm = fresh('_helper')
        ism = fn.args.args and fn.args.args[0].arg == 'self' and ctx['cls'] is not None and rng.random() < .6 and 'self' in (set(params))
        if not ism and ctx.get('cls') is None or not ism:
            place = 'module'
        else:
            place = 'class'
        if place == 'class':
            pins = [x for x in ins if x != 'self']
            callee = ast.Attribute(ast.Name('self', ast.Load()), nm, ast.Load())
            args = ['self'] + pins
            if 'self' in real_st:
                continue
        else:
            pins = ins
            callee = ast.Name(nm, ast.Load())
            args = pins
        body = list(run)
        if outs:
            rv = ast.Name(outs[0], ast.Load()) if len(outs) == 1 else ast.Tuple([ast.Name(x, ast.Load()) for x in outs], ast.Load())
            body.append(ast.Return(rv))
        h = ast.FunctionDef(name=nm, args=ast.arguments(posonlyargs=[], args=[ast.arg(a) for a in args], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]),
                            body=body, decorator_list=[], returns=None, type_params=[])
        call = ast.Call(callee, [ast.Name(x, ast.Load()) for x in pins], [])
        if outs:
            tg = ast.Name(outs[0], ast.Store()) if len(outs) == 1 else ast.Tuple([ast.Name(x, ast.Store()) for x in outs], ast.Store())
            ns = ast.Assign([tg], call)
        else:
            ns = ast.Expr(call)
        b[i:j] = [ns]
        (ctx['clsnode'].body if place == 'class' else ctx['tree'].body).append(h)
        return True
    return False


def t_extract_tail(fn, rng, ctx):
    """move the tail of the function (ending in returns) into a helper"""
    if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(fn)):
        return False
    b = fn.body
    if len(b) < 3:
        return False
    i = rng.randrange(1, len(b))
    run = b[i:]
    if has(run, (ast.Nonlocal, ast.Global, ast.ImportFrom, ast.Import)) or 'super' in names_load(run):
        return False
    params = {a.arg for a in fn.args.args + fn.args.kwonlyargs} | ({fn.args.vararg.arg} if fn.args.vararg else set()) | ({fn.args.kwarg.arg} if fn.args.kwarg else set())
    before = set(params)
    for x in b[:i]:
        if isinstance(x, (ast.Assign, ast.AnnAssign)):
            before |= names_store([x])
    maybe = names_store(b[:i]) | params
    ins = sorted(names_load(run) & maybe)
    if any(x not in before for x in ins):
        return False
    nm = fresh('_tail')
    h = ast.FunctionDef(name=nm, args=ast.arguments(posonlyargs=[], args=[ast.arg(a) for a in ins], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]),
                        body=run, decorator_list=[], returns=None, type_params=[])
    b[i:] = [ast.Return(ast.Call(ast.Name(nm, ast.Load()), [ast.Name(x, ast.Load()) for x in ins], []))]
    ctx['tree'].body.append(h)
    return True


def first_store(run, x):
    """is x stored by the first top-level statement mentioning it, as a plain assignment not reading it"""
    for r in run:
        if any(isinstance(n, ast.Name) and n.id == x for n in ast.walk(r)):
            if isinstance(r, ast.Assign):
                return x in names_store([r]) and x not in names_load([r.value])
            if isinstance(r, ast.For):
                return x in names_store([r.target])
            return False
    return False


def definite(run, x):
    return any(isinstance(r, ast.Assign) and x in names_store([r]) for r in run)


def find_path(fn, target):
    def rec(b):
        if b is target:
            return []
        for k, s in enumerate(b):
            for f in ('body', 'orelse', 'finalbody'):
                bb = getattr(s, f, None)
                if isinstance(bb, list) and bb and isinstance(bb[0], ast.stmt) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    r = rec(bb)
                    if r is not None:
                        return [(b, k)] + r
            if isinstance(s, ast.Try):
                for h in s.handlers:
                    r = rec(h.body)
                    if r is not None:
                        return [(b, k)] + r
        return None
    return rec(fn.body)


def t_extract_expr(fn, rng, ctx):
    """extract an expression into a helper function"""
    c = []
    for b, i, s in stmts(fn):
        for f in ('value', 'test', 'iter'):
            v = getattr(s, f, None)
            if isinstance(v, ast.expr):
                for n in ast.walk(v):
                    for ff, x in ast.iter_fields(n):
                        if isinstance(x, (ast.Call, ast.BinOp, ast.Compare, ast.BoolOp, ast.IfExp)) and not has([x], (ast.Yield, ast.Lambda, ast.NamedExpr)) and 'super' not in names_load([x]):
                            c.append((n, ff, x))
                if not isinstance(v, (ast.Name, ast.Constant)) and not has([v], (ast.Yield, ast.Lambda)):
                    c.append((s, f, v))
    if not c:
        return False
    n, f, x = rng.choice(c)
    allv = names_store(fn.body) | {a.arg for a in fn.args.args + fn.args.kwonlyargs} | ({fn.args.vararg.arg} if fn.args.vararg else set()) | ({fn.args.kwarg.arg} if fn.args.kwarg else set())
    comp = {y.id for c in ast.walk(fn) if isinstance(c, ast.comprehension) for y in ast.walk(c.target) if isinstance(y, ast.Name)}
    if any(isinstance(l, ast.Lambda) and any(y is x for y in ast.walk(l)) for l in ast.walk(fn)):
        return False
    inner = {y.id for c in ast.walk(x) if isinstance(c, ast.comprehension) for y in ast.walk(c.target) if isinstance(y, ast.Name)}
    ins = sorted((names_load([x]) & (allv | comp)) - inner)
    if inner & (names_load([x]) - inner):
        return False
    nm = fresh('_expr')
    h = ast.FunctionDef(name=nm, args=ast.arguments(posonlyargs=[], args=[ast.arg(a) for a in ins], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]),
                        body=[ast.Return(x)], decorator_list=[], returns=None, type_params=[])
    setattr(n, f, ast.Call(ast.Name(nm, ast.Load()), [ast.Name(y, ast.Load()) for y in ins], []))
    ctx['tree'].body.append(h)
    return True


def pure_simple(s):
    """assignment of call-free value to a local name"""
    return isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and \
        not has([s.value], (ast.Yield, ast.NamedExpr)) and (simple(s.value))


def t_reorder(fn, rng, ctx):
    c = []
    for b in blocks(fn):
        for i in range(len(b) - 1):
            x, y = b[i], b[i + 1]
            if pure_simple(x) and pure_simple(y):
                if not (names_store([x]) & (names_load([y]) | names_store([y]))) and not (names_store([y]) & names_load([x])):
                    c.append((b, i))
            # independent attribute stores on self
            def selfstore(s):
                return isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Attribute) and \
                    isinstance(s.targets[0].value, ast.Name) and s.targets[0].value.id in ('self', 'cls') and simple(s.value) and \
                    not has([s.value], (ast.Attribute, ast.Call))
            if selfstore(x) and selfstore(y) and x.targets[0].attr != y.targets[0].attr:
                c.append((b, i))
            # appends to different local/attr lists
            def app(s):
                return isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr in ('append',) \
                    and all(isinstance(a, (ast.Name, ast.Constant)) for a in s.value.args)
            if app(x) and app(y) and ast.dump(x.value.func.value) != ast.dump(y.value.func.value):
                c.append((b, i))
    if not c:
        return False
    b, i = rng.choice(c)
    b[i], b[i + 1] = b[i + 1], b[i]
    return True


def t_alias(fn, rng, ctx):
    """local alias of an attribute list that is never rebound in the function"""
    attrs = {}
    for n in walk_own(fn):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self' and n.attr in ('coords', 'payloads', 'ranks', 'fibers', 'stats', 'cache', 'traces'):
            attrs.setdefault(n.attr, []).append(n)
    c = [a for a, ns in attrs.items() if len(ns) > 1 and all(isinstance(x.ctx, ast.Load) for x in ns)]
    if not c or any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'self' for n in ast.walk(fn)):
        return False
    a = rng.choice(c)
    nm = fresh('al')

    class R(ast.NodeTransformer):
        def visit_Attribute(self, n):
            self.generic_visit(n)
            if isinstance(n.value, ast.Name) and n.value.id == 'self' and n.attr == a:
                return ast.Name(nm, ast.Load())
            return n

        def visit_FunctionDef(self, n):
            return n if n is not fn else self.generic_visit(n)
        visit_ClassDef = visit_Lambda = lambda self, n: n
    R().visit(fn)
    i = 1 if ast.get_docstring(fn) else 0
    fn.body.insert(i, ast.Assign([ast.Name(nm, ast.Store())], ast.Attribute(ast.Name('self', ast.Load()), a, ast.Load())))
    return True


def t_kw(fn, rng, ctx):
    """positional -> keyword for functions of the program with a unique signature"""
    c = []
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.args and not any(isinstance(a, ast.Starred) for a in n.args):
            fs = ctx['prog'].by_name.get(n.func.attr, [])
            if len(fs) == 1 and fs[0].kind == 'method' and len(n.args) <= len(fs[0].params) - 1 and not (isinstance(n.func.value, ast.Call) and getattr(n.func.value.func, 'id', '') == 'super') \
                    and not (isinstance(n.func.value, ast.Name) and n.func.value.id[:1].isupper()) and n.func.attr not in ('append', 'extend', 'insert', 'pop', 'clear'):
                c.append((n, fs[0]))
    if not c:
        return False
    n, f = rng.choice(c)
    k = len(n.args) - 1
    n.keywords.insert(0, ast.keyword(f.params[1 + k], n.args.pop()))
    return True


def t_boolret(fn, rng, ctx):
    """return <cond> -> if cond: return True; return False"""
    c = [(b, i, s) for b, i, s in stmts(fn) if isinstance(s, ast.Return) and isinstance(s.value, ast.Compare) and
         not isinstance(s.value.ops[0], (ast.Eq, ast.NotEq))]
    if not c:
        return False
    b, i, s = rng.choice(c)
    b[i:i + 1] = [ast.If(s.value, [ast.Return(ast.Constant(True))], []), ast.Return(ast.Constant(False))]
    return True


def t_enum(fn, rng, ctx):
    """for i, x in enumerate(xs) -> manual counter"""
    c = []
    for b, i, s in stmts(fn):
        if isinstance(s, ast.For) and not s.orelse and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'enumerate' \
                and len(s.iter.args) == 1 and isinstance(s.target, ast.Tuple) and isinstance(s.target.elts[0], ast.Name) and not has(s.body, (ast.Continue,)) \
                and s.target.elts[0].id not in names_store(s.body) and s.target.elts[0].id not in names_load(b[i + 1:]):
            c.append((b, i, s))
    if not c:
        return False
    b, i, s = rng.choice(c)
    v = s.target.elts[0].id
    s.target = s.target.elts[1]
    s.iter = s.iter.args[0]
    s.body.append(ast.AugAssign(ast.Name(v, ast.Store()), ast.Add(), ast.Constant(1)))
    b.insert(i, ast.Assign([ast.Name(v, ast.Store())], ast.Constant(0)))
    return True


def t_whiletrue(fn, rng, ctx):
    c = [s for _, _, s in stmts(fn) if isinstance(s, ast.While) and not (isinstance(s.test, ast.Constant)) and not s.orelse]
    if not c:
        return False
    s = rng.choice(c)
    s.body.insert(0, ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Break()], []))
    s.test = ast.Constant(True)
    return True


def t_elif(fn, rng, ctx):
    """common tail duplication: statement after an if moved into both branches"""
    c = []
    for b, i, s in stmts(fn):
        if isinstance(s, ast.If) and i + 1 < len(b) and not isinstance(s.body[-1], (ast.Return, ast.Continue, ast.Break, ast.Raise)) and \
                isinstance(b[i + 1], (ast.Assign, ast.Expr, ast.Return, ast.AugAssign)) and not (s.orelse and isinstance(s.orelse[-1], (ast.Return, ast.Continue, ast.Break, ast.Raise))):
            c.append((b, i, s))
    if not c:
        return False
    b, i, s = rng.choice(c)
    nx = b.pop(i + 1)
    s.body.append(nx)
    s.orelse.append(copy.deepcopy(nx))
    return True


def t_augexp(fn, rng, ctx):
    c = [(b, i, s) for b, i, s in stmts(fn) if isinstance(s, ast.AugAssign) and isinstance(s.op, (ast.Add, ast.Sub)) and isinstance(s.value, ast.Constant) and isinstance(s.target, (ast.Name, ast.Attribute))]
    if not c:
        return False
    b, i, s = rng.choice(c)
    ld = copy.deepcopy(s.target)
    ld.ctx = ast.Load()
    b[i] = ast.Assign([s.target], ast.BinOp(ld, s.op, s.value))
    return True


def t_tupleassign(fn, rng, ctx):
    c = []
    for b in blocks(fn):
        for i in range(len(b) - 1):
            x, y = b[i], b[i + 1]
            if pure_simple(x) and pure_simple(y) and not (names_store([x]) & (names_load([y]) | names_store([y]))):
                c.append((b, i))
    if not c:
        return False
    b, i = rng.choice(c)
    x, y = b[i], b[i + 1]
    b[i:i + 2] = [ast.Assign([ast.Tuple([x.targets[0], y.targets[0]], ast.Store())], ast.Tuple([x.value, y.value], ast.Load()))]
    return True


def t_anyloop(fn, rng, ctx):
    """return any(p for x in xs) -> loop"""
    c = [(b, i, s) for b, i, s in stmts(fn) if isinstance(s, ast.Return) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name)
         and s.value.func.id in ('any', 'all') and isinstance(s.value.args[0], (ast.GeneratorExp, ast.ListComp)) and len(s.value.args[0].generators) == 1]
    if not c:
        return False
    b, i, s = rng.choice(c)
    g = s.value.args[0].generators[0]
    a = s.value.func.id == 'any'
    test = s.value.args[0].elt
    body = [ast.If(test if a else ast.UnaryOp(ast.Not(), test), [ast.Return(ast.Constant(a))], [])]
    for cnd in reversed(g.ifs):
        body = [ast.If(cnd, body, [])]
    b[i:i + 1] = [ast.For(g.target, g.iter, body, []), ast.Return(ast.Constant(not a))]
    return True


def t_nestfn(fn, rng, ctx):
    """wrap a run of statements in a local closure called once"""
    bl = [b for b in blocks(fn)]
    for _ in range(10):
        b = rng.choice(bl)
        i = rng.randrange(len(b))
        s = b[i]
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and not has([s.value], (ast.Yield,)):
            nm = fresh('compute')
            h = ast.FunctionDef(name=nm, args=ast.arguments(posonlyargs=[], args=[], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]),
                                body=[ast.Return(s.value)], decorator_list=[], returns=None, type_params=[])
            b[i:i + 1] = [h, ast.Assign(s.targets, ast.Call(ast.Name(nm, ast.Load()), [], []))]
            return True
    return False


TR = {k[2:]: v for k, v in list(globals().items()) if k.startswith('t_')}


def changed(e):
    out = []
    for q in sorted(e.A.funcs):
        if e.source_same(q):
            continue
        v = e.verdict(q)
        if v.kind != 'equal':
            out.append((q, v))
    for o in structure(e):
        if o.ok is not True:
            out.append((o.owner + ' ' + o.text, None))
    return out


def main(seed, count, only=None):
    rng = random.Random(seed)
    A = Program(ROOT)
    known = set(A.funcs)
    quals = sorted(q for q, f in A.funcs.items() if len(list(ast.walk(f.node))) > 25)
    base = None
    st = {}
    tot = 0
    tries = 0
    while tot < count and tries < count * 60:
        tries += 1
        q = rng.choice(quals)
        f = A.funcs[q]
        kind = rng.choice(sorted(TR)) if only is None else only
        tree = copy.deepcopy(f.mod.tree)
        cur = clsnode = None
        for n in ast.walk(tree):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, ast.FunctionDef) and c.name == f.node.name and c.lineno == f.node.lineno:
                    cur = c
                    clsnode = n if isinstance(n, ast.ClassDef) else None
        # sometimes operate on a nested function/class method
        target = cur
        inner = [n for n in ast.walk(cur) if isinstance(n, ast.FunctionDef) and n is not cur]
        if inner and rng.random() < .6 and kind not in ('extract_tail',):
            target = rng.choice(inner)
        ctx = {'cls': f.cls if target is cur and clsnode is not None else None, 'clsnode': clsnode, 'tree': tree, 'prog': A}
        before = ast.unparse(cur)
        kinds = [kind] + ([rng.choice(sorted(TR)) for _ in range(STACK - 1)] if only is None else [kind] * (STACK - 1))
        done = []
        for kind in kinds:
            try:
                if target is not cur and kind in ('extract', 'extract_expr', 'extract_tail'):
                    continue
                if TR[kind](target, rng, ctx):
                    done.append(kind)
                    ast.fix_missing_locations(tree)
            except Exception as ex:
                print('TRANSFORM-EXC', kind, type(ex).__name__, ex)
                break
        if not done:
            continue
        kind = '+'.join(done)
        ast.fix_missing_locations(tree)
        src = ast.unparse(tree)
        after = ast.unparse(cur)
        tot += 1
        s = st.setdefault(kind, [0, 0, 0, 0])
        s[0] += 1
        try:
            e = Engine(ROOT, overlay={f.mod.path: src}, base=base)
            if base is None:
                base = e
            base.graphs.update((k, g) for k, g in e.graphs.items() if k[0] == 'A')
            ch = changed(e)
            und = [(x, v) for x, v in ch if v is None or v.kind == 'undecided']
            bad = [(x, v) for x, v in ch if v is not None and v.kind in ('diff', 'gone')]
            s[3] += bool(und and not bad)
            if und and not bad:
                print('UND', kind, q, [(x, v.note if v else '') for x, v in und])
            if bad:
                s[1] += 1
                x, v = bad[0]
                d = v.diff
                print('ALARM', kind, q, x, v.kind, v.note)
                df = [x for x in difflib.unified_diff(before.splitlines(), after.splitlines(), lineterm='', n=1)][2:]
                for x in df[:14]:
                    print('     ', x[:160])
                if d is not None:
                    for l, t in cmp.describe(d, d.only_ref, 2, 260):
                        print('   ref', l, t)
                    for l, t in cmp.describe(d, d.only_cur, 2, 260):
                        print('   cur', l, t)
        except Exception as ex:
            s[2] += 1
            import traceback
            print('EXC', kind, q, type(ex).__name__, str(ex)[:200])
            df = [x for x in difflib.unified_diff(before.splitlines(), after.splitlines(), lineterm='', n=1)][2:]
            for x in df[:10]:
                print('     ', x[:160])
    print('total', tot, 'alarms', sum(x[1] for x in st.values()), 'undecided', sum(x[3] for x in st.values()), 'exc', sum(x[2] for x in st.values()))
    print({k: v for k, v in sorted(st.items()) if v[1] or v[2]})


if __name__ == '__main__':
    main(int(sys.argv[1]), int(sys.argv[2]), sys.argv[3] if len(sys.argv) > 3 else None)
