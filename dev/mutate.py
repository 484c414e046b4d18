"""Development only: random source mutants; reports those whose value graph is unchanged (missed)."""
import ast, copy, random, sys, time, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from sa.prog import Program, FILES
from sa import cmp
from sa.engine import Engine

ROOT = '/repo'


def sites(fn):
    out = []
    for n in ast.walk(fn):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            out.append(('cmp', n))
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.FloorDiv, ast.BitAnd, ast.BitOr)):
            out.append(('bin', n))
        elif isinstance(n, ast.BoolOp):
            out.append(('bool', n))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, bool)) :
            out.append(('const', n))
        elif isinstance(n, ast.If):
            out.append(('ifneg', n))
            if n.orelse:
                out.append(('dropelse', n))
            out.append(('iftrue', n))
        elif isinstance(n, (ast.For, ast.While)):
            out.append(('loopbreak', n))
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2:
                out.append(('swaparg', n))
            if n.keywords:
                out.append(('dropkw', n))
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr in ALT:
            out.append(('attr', n))
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            out.append(('name', n))
        if isinstance(n, ast.stmt) and hasattr(n, 'body') is False:
            pass
        for f in ('body', 'orelse'):
            b = getattr(n, f, None)
            if isinstance(b, list):
                for i, s in enumerate(b):
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Continue, ast.Break, ast.Return)) and not (
                            isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        out.append(('drop', (b, i)))
                    if i + 1 < len(b) and isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr)) and isinstance(
                            b[i + 1], (ast.Assign, ast.AugAssign, ast.Expr)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        out.append(('swapst', (b, i)))
    return out


ALT = {'coords': 'payloads', 'payloads': 'coords', 'getShape': 'getActive', 'append': 'extend'}
CM = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
      ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BM = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.FloorDiv: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}


def apply(kind, n, fn, rng):
    if kind == 'cmp':
        n.ops = [CM[type(n.ops[0])]()]
    elif kind == 'bin':
        n.op = BM[type(n.op)]()
    elif kind == 'bool':
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif kind == 'const':
        n.value = (not n.value) if isinstance(n.value, bool) else n.value + 1
    elif kind == 'ifneg':
        n.test = ast.UnaryOp(ast.Not(), n.test)
    elif kind == 'dropelse':
        n.orelse = []
    elif kind == 'iftrue':
        n.test = ast.Constant(True)
    elif kind == 'loopbreak':
        n.body.append(ast.Break())
    elif kind == 'swaparg':
        n.args[0], n.args[1] = n.args[1], n.args[0]
    elif kind == 'dropkw':
        n.keywords.pop(rng.randrange(len(n.keywords)))
    elif kind == 'attr':
        n.attr = ALT[n.attr]
    elif kind == 'name':
        names = sorted({x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} |
                       {a.arg for a in fn.args.args})
        names = [x for x in names if x != n.id]
        if not names:
            return False
        n.id = rng.choice(names)
    elif kind == 'drop':
        b, i = n
        b[i] = ast.Pass()
    elif kind == 'swapst':
        b, i = n
        b[i], b[i + 1] = b[i + 1], b[i]
    return True


def main(seed, count):
    rng = random.Random(seed)
    A = Program(ROOT)
    known = set(A.funcs)
    quals = sorted(q for q, f in A.funcs.items() if f.cls != 'TensorImage' and len(list(ast.walk(f.node))) > 25)
    base = None
    miss = 0
    tot = 0
    exc = 0
    bykind = {}
    while tot < count:
        q = rng.choice(quals)
        f = A.funcs[q]
        tree = copy.deepcopy(f.mod.tree)
        B0 = None
        # locate the function in the copy
        cur = None
        for n in ast.walk(tree):
            if isinstance(n, ast.FunctionDef) and n.name == f.node.name and n.lineno == f.node.lineno:
                cur = n
        if cur is None:
            continue
        ss = sites(cur)
        if not ss:
            continue
        kk = rng.choice(sorted({k for k, _ in ss}))
        kind, n = rng.choice([x for x in ss if x[0] == kk])
        before = ast.unparse(cur)
        if not apply(kind, n, cur, rng):
            continue
        after = ast.unparse(cur)
        if before == after:
            continue
        tot += 1
        try:
            ast.fix_missing_locations(tree)
            src = ast.unparse(tree)
            e = Engine(ROOT, overlay={f.mod.path: src}, base=base)
            base = base or e
            base.graphs.update((k, g) for k, g in e.graphs.items() if k[0] == 'A')
            v = None
            for x in e.A.funcs:
                if not e.source_same(x):
                    v = e.verdict(x)
                    if v.kind in ('diff', 'gone'):
                        break
            d = None if v is None or v.kind == 'equal' else v
            st = bykind.setdefault(kind, [0, 0, 0])
            st[0] += 1
            if d is None:
                miss += 1
                st[1] += 1
                import difflib
                df = [x for x in difflib.unified_diff(before.splitlines(), after.splitlines(), lineterm='', n=1)][3:]
                print('MISS', kind, q)
                for x in df[:8]:
                    print('     ', x[:150])
            elif d.kind == 'undecided':
                print('UND', kind, q, d.note)
                st[2] += 1
        except Exception as ex:
            exc += 1
            print('EXC', q, kind, type(ex).__name__, str(ex)[:100])
    print('total', tot, 'missed', miss, 'exc', exc, bykind)


main(int(sys.argv[1]), int(sys.argv[2]))
