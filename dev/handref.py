"""Development aid: hand-written behaviour-preserving rewrites; the engine must stay quiet on each.

usage: handref.py SPEC.py [-t] [ID...]
-t also runs the stable tests on each rewritten copy (to confirm the rewrite itself).

A SPEC is Python using
  F('core/fiber.py')                 choose the file (source shown by ast.unparse without docstrings)
  R(id, qual, (old, new), ...)       substitutions in function `qual` ('Cls.meth', 'f', '' = whole file)
  W(id, qual, text)                  new text (dedented) for the function; may hold several functions
"""
import ast, json, os, re, shutil, subprocess, sys, textwrap
from concurrent.futures import ThreadPoolExecutor

ROOT = '/repo/fibertree'


def norm(src):
    t = ast.parse(src)
    for n in ast.walk(t):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and \
           isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and \
           isinstance(n.body[0].value.value, str):
            n.body = n.body[1:] or [ast.Pass()]
    return ast.unparse(t) + '\n'


class Spec:
    def __init__(self):
        self.refs = []
        self.bad = []

    def F(self, f):
        self.f = f
        self.s = norm(open(os.path.join(ROOT, f)).read())
        self.lines = self.s.split('\n')

    def span(self, q):
        if not q:
            return 0, len(self.lines), 0
        node = ast.parse(self.s)
        for p in q.split('.'):
            node = [n for n in node.body if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == p][-1]
        a = min([node.lineno] + [d.lineno for d in node.decorator_list])
        return a - 1, node.end_lineno, node.col_offset

    def put(self, i, q, text):
        a, b, _ = self.span(q)
        new = '\n'.join(self.lines[:a]) + '\n' + text + '\n' + '\n'.join(self.lines[b:])
        try:
            ast.parse(new)
        except SyntaxError as e:
            self.bad.append('%s: %s' % (i, e))
            return
        self.refs.append((i, {self.f: new}))

    def R(self, i, q, *subs):
        a, b, _ = self.span(q)
        t = '\n'.join(self.lines[a:b])
        for old, new in subs:
            old, new = old.strip('\n'), new.strip('\n')
            if old == '+':
                t = t + '\n\n' + new
                continue
            if t.count(old) != 1:
                # try to match dedented text
                ded = textwrap.dedent(old)
                hit = None
                for ind in range(0, 60, 4):
                    cand = textwrap.indent(ded, ' ' * ind)
                    if t.count(cand) == 1:
                        hit = cand, textwrap.indent(textwrap.dedent(new), ' ' * ind)
                if hit is None:
                    self.bad.append('%s: %d matches of %r' % (i, t.count(old), old[:90]))
                    return
                old, new = hit
            t = t.replace(old, new)
        self.put(i, q, t)

    def W(self, i, q, text):
        _, _, c = self.span(q)
        self.put(i, q, textwrap.indent(textwrap.dedent(text.strip('\n')), ' ' * c))


sp = Spec()
ns = {'F': sp.F, 'R': sp.R, 'W': sp.W}
exec(open(sys.argv[1]).read(), ns)
args = sys.argv[2:]
tests = '-t' in args
only = {a for a in args if a not in ('-t', '-k')}
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
test_sh = open('/opt/vp/test.sh').read()
for b in sp.bad:
    print('BAD', b)


def sh(cmd, cwd=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True)


def one(r):
    rid, edits = r
    w = '/tmp/hr/%d-%s' % (os.getpid(), rid)
    if '-k' in args:
        w = '/tmp/hr/k-%s' % rid
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree('/repo', w, symlinks=True)
    out = []
    for f, new in edits.items():
        open(os.path.join(w, 'fibertree', f), 'w').write(new)
    r = sh('timeout 800 /opt/venv/bin/python /verif/dev/te.py %s' % w)
    out.append('%s: %s %s' % (rid, r.stdout.strip()[:3000], r.stderr.strip()[-600:]))
    if tests:
        tp, o = w + '.sh', w + '.json'
        open(tp, 'w').write(re.sub(r'/repo(?![a-z])', w, test_sh))
        sh('bash %s %s' % (tp, o), w)
        try:
            failed = sorted(stable - set(json.load(open(o))['passed']))
        except Exception as e:
            failed = ['no result %s' % e]
        out.append('   tests failing: %d %s' % (len(failed), failed[:3]) if failed else '   tests ok')
        for x in (tp, o):
            if os.path.exists(x):
                os.remove(x)
    if '-k' not in args:
        shutil.rmtree(w)
    return '\n'.join(out)


os.makedirs('/tmp/hr', exist_ok=True)
with ThreadPoolExecutor(7) as ex:
    for t in ex.map(one, [r for r in sp.refs if not only or r[0] in only]):
        print(t, flush=True)
