"""Driver: python3 -m sa.check C04   (tier from VERIF_TIER, tree from VERIF_REPO or /repo)

exit 0  every obligation of the property is discharged or could not be judged (listed in the evidence)
exit 1  a violated obligation; prints VIOLATION property=<id> replay=<file>
exit 2  the analysis itself could not be carried out (unparsable source, empty obligation set)
"""
import json
import os
import resource
import sys
import time

from . import cmp, rules
from .classes import structure
from .engine import AnalysisBroken, Engine
from .slices import METRICS_ONLY, WRITES_ONLY, SLICES, functions

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_known():
    out = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        with open(p) as fh:
            for line in fh:
                line = line.strip()
                if not line.startswith('KNOWN-FINDING:'):
                    continue
                w = line.split(None, 3)
                prop = w[1].split('=', 1)[1]
                key = w[2].split('=', 1)[1]
                out[(prop, key)] = w[3] if len(w) > 3 else ''
    return out


def describe(eng, q, v):
    f = eng.cur(v.func or q) or eng.A.funcs[q]
    line, lines = f.node.lineno, []
    if v.diff is not None:
        cur = list(cmp.describe(v.diff, v.diff.only_cur, 4, 300))
        ref = list(cmp.describe(v.diff, v.diff.only_ref, 4, 300))
        ls = [x for x, _ in cur if isinstance(x, int) and x > 0]
        if ls:
            line = min(ls)
        for x, t in ref:
            lines.append('expected (reference line %s): %s' % (x, t))
        for x, t in cur:
            lines.append('found    (line %s): %s' % (x, t))
    return f.mod.path, line, lines


def run(prop, tier, root):
    t0 = time.time()
    eng = Engine(root, per_func=60 if tier == 'quick' else 300)
    own = functions(eng.A, prop)
    missing = [q for q, _ in own if q not in eng.A.funcs]
    if missing:
        raise AnalysisBroken('slice names unknown functions: %s' % missing)
    items = list(own)
    if tier == 'thorough':
        items += closure(eng, [q for q, _ in own])
    stat = {'equal': 0, 'diff': 0, 'undecided': 0, 'gone': 0}
    effects = 0
    viol, und, changed, samples = [], [], [], []
    mode = None if prop in METRICS_ONLY else 'ignore'
    for q, clause in items:
        if time.time() - t0 > (400 if tier == 'quick' else 600):
            # leave time for an answer: what the time limit cuts off is reported as not judged
            eng.per_func = 4
        v = eng.verdict(q, 'writes' if (prop, clause) in WRITES_ONLY else mode)
        stat[v.kind] += 1
        effects += v.counts.get('effects', 0)
        if not eng.source_same(q):
            changed.append(q)
        if v.kind == 'equal':
            if v.counts and len(samples) < 6 and v.counts.get('effects', 0) > 3:
                samples.append('%s: %d guarded effects (%s)' % (q, v.counts['effects'], clause))
        elif v.kind == 'undecided':
            und.append('%s: %s' % (q, v.note))
        else:
            path, line, lines = describe(eng, q, v)
            viol.append({'rule': 'effects', 'function': q, 'clause': clause, 'file': path, 'line': line,
                         'key': 'effects:' + q, 'what': v.note or 'what this function does differs from the reviewed effect summary',
                         'detail': lines})
    owners = set()
    for q, _ in own:
        f = eng.A.funcs[q]
        owners.add(f.mod.short + ':')
        owners.add('%s:%s' % (f.mod.short, f.cls or ''))
        if f.cls and f.cls in eng.A.classes:
            owners.add('%s:%s' % (eng.A.classes[f.cls].mod.short, f.cls))
    nstruct = 0
    for o in structure(eng):
        if o.owner not in owners:
            continue
        nstruct += 1
        if o.ok is False:
            viol.append({'rule': 'structure: ' + o.clause, 'function': o.owner, 'clause': o.clause, 'file': o.file,
                         'line': o.line, 'key': 'structure:%s:%s' % (o.owner, o.text[:60]), 'what': o.text, 'detail': []})
        elif o.ok is None:
            und.append('%s: %s' % (o.owner, o.text))
    nrules = {}
    for r in rules.for_property(prop):
        res = r.run(eng.B)
        nrules[r.name] = {'sites': res.sites, 'discharged': res.ok, 'rule': r.text}
        for x in res.unjudged:
            und.append('%s: %s' % (r.name, x))
        for x in res.violations:
            viol.append(dict(x, rule=r.name))
    if not stat['equal'] + stat['diff'] + stat['gone'] + stat['undecided']:
        raise AnalysisBroken('no function to analyse')
    known = load_known()
    shown, fresh = [], []
    for x in viol:
        k = (prop, x['key'])
        (shown if k in known else fresh).append(x)
    return dict(prop=prop, tier=tier, stat=stat, effects=effects, und=und, changed=changed, samples=samples, nstruct=nstruct,
                rules=nrules, fresh=fresh, shown=[(x, known[(prop, x['key'])]) for x in shown], functions=len(items),
                wall=time.time() - t0, eng=eng)


def closure(eng, quals):
    """functions reachable from the property's own ones through calls resolved by name"""
    A = eng.A
    seen = set(quals)
    work = list(quals)
    out = []
    while work:
        f = A.funcs[work.pop()]
        for nm, on_self, ctor, cls, _ in f.calls:
            for g in A.call_cands(nm, ctor, cls, f.cls if on_self else None):
                if g.qual not in seen and g.qual in A.funcs:
                    seen.add(g.qual)
                    work.append(g.qual)
                    out.append((g.qual, 'reached through calls'))
    return sorted(out)


def main(argv):
    prop = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    root = os.environ.get('VERIF_REPO', '/repo')
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    try:
        r = run(prop, tier, root)
    except AnalysisBroken as ex:
        print('ERROR: analysis not carried out: %s' % ex)
        return 2
    n = r['functions']
    rule_sites = sum(x['sites'] for x in r['rules'].values())
    rule_ok = sum(x['discharged'] for x in r['rules'].values())
    obligations = n + r['nstruct'] + rule_sites
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of the current source. Every listed function of the property is lowered to a '
                           'guarded-effect value graph (loads, stores, calls, yields, returns with path conditions) and '
                           'judged against the reviewed summary of the same function; class/module level bindings '
                           'are judged likewise. Nothing is executed.',
            'functions': n, 'functions_equal': r['stat']['equal'], 'functions_violating': r['stat']['diff'] + r['stat']['gone'],
            'functions_not_judged': r['stat']['undecided'], 'guarded_effects_matched': r['effects'],
            'functions_whose_source_changed': len(r['changed']), 'changed': r['changed'][:40],
            'structure_obligations': r['nstruct'], 'rules': r['rules'],
            'obligations': obligations, 'discharged': obligations - len(r['fresh']) - len(r['shown']) - len(r['und']),
            'not_judged': r['und'][:40], 'samples': r['samples'],
        },
        'assumptions': ASSUMPTIONS,
        'wall_s': round(r['wall'], 3), 'violations': len(r['fresh']),
    }
    with open(os.path.join(evdir, prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
        fh.write('\n')
    for x, t in r['shown']:
        print('KNOWN-FINDING: property=%s %s' % (prop, t))
    print('%s: %d functions (%d equal, %d not judged), %d guarded effects, %d structure obligations, %d rule sites (%d discharged), %.1f s' % (
        prop, n, r['stat']['equal'], r['stat']['undecided'], r['effects'], r['nstruct'], rule_sites, rule_ok, r['wall']))
    if r['und']:
        for u in r['und'][:10]:
            print('  not judged: ' + u[:200])
    if not r['fresh']:
        return 0
    rep = os.path.join(evdir, prop + '.violation.json')
    with open(rep, 'w') as fh:
        json.dump({'property': prop, 'violations': r['fresh']}, fh, indent=1)
        fh.write('\n')
    for x in r['fresh'][:12]:
        print('%s:%s: %s [%s] %s' % (x['file'], x['line'], x['function'], x['rule'], x['what']))
        for t in x['detail'][:6]:
            print('    ' + t)
    print('VIOLATION property=%s replay=%s' % (prop, rep))
    return 1


ASSUMPTIONS = [
    'CPython semantics; operators on coordinates are free of side effects and total orders on the coordinates in use',
    'the reviewed summaries (sa/ref) describe a tree on which the property holds up to the listed known findings',
    'attributes are reached by name; no monkey-patching, exec or reflection beyond the partialmethod tables in the classes',
]

if __name__ == '__main__':
    sys.exit(main(sys.argv))
