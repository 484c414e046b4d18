"""Obligations on class and module level: bases, class attributes, name bindings, overriding, module constants."""
import ast

from . import cmp
from .mt import TooBig
from .prog import _strip_pos
from .vg import Builder, Unsupported

OPERATOR = {'__%s__' % x for x in (
    'eq ne lt le gt ge bool len iter next contains getitem setitem delitem getattr getattribute setattr delattr hash '
    'add radd iadd sub rsub isub mul rmul imul truediv rtruediv itruediv floordiv rfloordiv ifloordiv mod rmod imod '
    'and rand iand or ror ior xor rxor ixor lshift rlshift ilshift rshift rrshift irshift neg pos abs invert int float '
    'index call new init deepcopy copy reduce reduce_ex getstate setstate del reversed init_subclass class_getitem '
    'set_name get set delete instancecheck subclasscheck').split()}


class Ob:
    def __init__(self, owner, clause, ok, text, file='', line=0):
        self.owner = owner      # 'short:' or 'short:Class'
        self.clause = clause
        self.ok = ok            # True | False | None (cannot be judged)
        self.text = text
        self.file = file
        self.line = line


def _same_value(prog_a, ma, a, prog_b, mb, b, depth=0):
    """True/False/None for two constant-ish expressions"""
    a, b = _deref(prog_a, ma, a), _deref(prog_b, mb, b)
    try:
        return ast.literal_eval(a) == ast.literal_eval(b) and repr(ast.literal_eval(a)) == repr(ast.literal_eval(b)) \
            or _litdict(a, b)
    except Exception:
        pass
    if _strip_pos(a) == _strip_pos(b):
        return True
    if depth > 6:
        return None
    if isinstance(a, ast.Dict) and isinstance(b, ast.Dict):
        da, db = _dict(a), _dict(b)
        if da is None or db is None:
            return None
        if set(da) != set(db):
            return False
        return _all(_same_value(prog_a, ma, da[k], prog_b, mb, db[k], depth + 1) for k in da)
    if isinstance(a, (ast.List, ast.Tuple)) and type(a) is type(b):
        if len(a.elts) != len(b.elts):
            return False
        return _all(_same_value(prog_a, ma, x, prog_b, mb, y, depth + 1) for x, y in zip(a.elts, b.elts))
    if isinstance(a, ast.Call) and isinstance(b, ast.Call):
        if _strip_pos(a.func) != _strip_pos(b.func) or len(a.args) != len(b.args):
            return None
        ka, kb = {k.arg: k.value for k in a.keywords}, {k.arg: k.value for k in b.keywords}
        if set(ka) != set(kb):
            return False
        return _all([_same_value(prog_a, ma, x, prog_b, mb, y, depth + 1) for x, y in zip(a.args, b.args)] +
                    [_same_value(prog_a, ma, ka[k], prog_b, mb, kb[k], depth + 1) for k in ka])
    if isinstance(a, ast.Name) and isinstance(b, ast.Name):
        return False
    if isinstance(a, ast.Attribute) and isinstance(b, ast.Attribute):
        return False
    if isinstance(a, ast.Constant) and isinstance(b, ast.Constant):
        return False
    return None


def _litdict(a, b):
    if isinstance(a, (ast.Dict, ast.Set)):
        x, y = ast.literal_eval(a), ast.literal_eval(b)
        return x == y and type(x) is type(y)
    return False


def _dict(d):
    out = {}
    for k, v in zip(d.keys, d.values):
        if k is None:
            return None
        out[_strip_pos(k)] = v
    return out


def _all(it):
    r = True
    for x in it:
        if x is False:
            return False
        if x is None:
            r = None
    return r


def _deref(prog, mod, e, n=0):
    while isinstance(e, ast.Name) and n < 5:
        x = mod.names.get(e.id)
        if isinstance(x, tuple) and x[0] == 'const':
            e = x[1]
            n += 1
        else:
            break
    return e


def graphs_equal(eng, fa, fb):
    try:
        a = Builder(eng.A, eng.known).build(fa)
        b = Builder(eng.B, eng.known).build(fb, like=fa)
        return cmp.compare(a, b) is None
    except (Unsupported, TooBig, RecursionError):
        return None


def owner_of(c):
    return '%s:%s' % (c.mod.short, c.name)


def structure(eng):
    A, B = eng.A, eng.B
    out = []
    for c in A.classes.values():
        own = owner_of(c)
        d = B.classes.get(c.name)
        if d is None:
            ok = None if any(c.name in m.names for m in B.mods.values()) else False
            out.append(Ob(own, 'class exists', ok, 'class %s is no longer defined' % c.name, c.mod.path))
            continue
        path, line = d.mod.path, d.node.lineno
        miss = [b for b in c.bases if b and b not in d.bases and not _inherits(B, d, b)]
        out.append(Ob(own, 'bases', not miss, 'class %s no longer derives from %s' % (c.name, ', '.join(miss)), path, line))
        for n, v in c.attrs.items():
            if n in d.attrs:
                ok = _same_value(A, c.mod, v, B, d.mod, d.attrs[n])
                out.append(Ob(own, 'class attribute', ok, '%s.%s is bound to %s, was %s' % (
                    c.name, n, ast.unparse(d.attrs[n])[:90], ast.unparse(v)[:90]), path, getattr(d.attrs[n], 'lineno', line)))
            else:
                f = B.find_method(c.name, n)
                ok = None if f or _attr(B, d, n) else False
                out.append(Ob(own, 'class attribute', ok, '%s.%s is no longer bound' % (c.name, n), path, line))
        for n, f in c.methods.items():
            g = d.methods.get(n)
            if g is None or g.qual == f.qual:
                out.append(Ob(own, 'binding', True, ''))
                continue
            if f.qual not in B.funcs and g.qual not in A.funcs:
                continue            # moved; judged with the function
            ok = graphs_equal(eng, f, g)
            out.append(Ob(own, 'binding', ok, '%s.%s is bound to %s, was %s' % (c.name, n, g.qual, f.qual), path, line))
        for n, g in d.methods.items():
            if n in c.methods or n in c.attrs:
                continue
            f0 = A.find_method(c.name, n)
            if f0 is not None:
                # the inherited method is overridden now (or moved down)
                ok = graphs_equal(eng, f0, g)
                out.append(Ob(own, 'overriding', ok, '%s.%s overrides the inherited %s and behaves differently' % (
                    c.name, n, f0.qual), path, g.node.lineno))
            elif n in OPERATOR:
                out.append(Ob(own, 'operators', False, '%s defines %s, which changes what the operator does' % (c.name, n),
                              path, g.node.lineno))
        for n, v in d.attrs.items():
            if n not in c.attrs and (n in c.methods or n in OPERATOR):
                out.append(Ob(own, 'binding', _alias_ok(eng, c, d, n, v), '%s.%s is rebound to %s' % (
                    c.name, n, ast.unparse(v)[:80]), path, v.lineno))
    for m in A.mods.values():
        k = B.mods.get(m.short)
        if k is None:
            continue
        own = m.short + ':'
        for n, x in m.names.items():
            y = k.names.get(n)
            if isinstance(x, tuple) and x[0] == 'const' and isinstance(y, tuple) and y[0] == 'const':
                if n in ('module_logger',) or 'getLogger' in _strip_pos(x[1]):
                    continue
                out.append(Ob(own, 'module constant', _same_value(A, m, x[1], B, k, y[1]),
                              '%s is %s, was %s' % (n, ast.unparse(y[1])[:90], ast.unparse(x[1])[:90]), k.path, y[1].lineno))
            elif isinstance(x, tuple) and x[0] == 'sym' and isinstance(y, tuple) and y[0] == 'sym':
                out.append(Ob(own, 'import', x[2] == y[2], 'the name %s is imported from %s.%s, was %s.%s' % (
                    (n,) + y[1:] + x[1:]), k.path))
    return out


def _alias_ok(eng, c, d, n, v):
    f = c.methods.get(n)
    if f is None:
        return False
    if isinstance(v, ast.Name):
        g = d.methods.get(v.id) or eng.B.find_method(d.name, v.id)
        if g is not None:
            return graphs_equal(eng, f, g)
    return None


def _inherits(P, c, b, seen=()):
    for x in c.bases:
        if x == b:
            return True
        e = P.classes.get(x)
        if e is not None and x not in seen and _inherits(P, e, b, seen + (x,)):
            return True
    return False


def _attr(P, c, n):
    for x in c.bases:
        e = P.classes.get(x)
        if e is not None and (n in e.attrs or _attr(P, e, n)):
            return True
    return False
