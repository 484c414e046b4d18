"""Development aid: build and confirm planted changes.

usage: mkseed.py SPEC.py [ID...]
SPEC defines SEEDS = [dict(id=, prop=, edits=[(file, old, new)...], demo=, needs=, what=)].
Works in a scratch copy of /repo; keeps a seed only when the demo passes on the clean tree and
fails with the change, every stable test passes with it, and only original lines are changed.
"""
import json, os, re, shutil, subprocess, sys
BASE = 'e8f559b'
PY = '/opt/venv/bin/python'
spec = {}
exec(open(sys.argv[1]).read(), spec)
only = set(sys.argv[2:])
W = '/tmp/seed/wt-%d' % os.getpid()
DEMO_SH = '#!/bin/bash\nd="$(cd "$(dirname "$0")" && pwd)"\nt=$(mktemp -d)\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 TMPDIR="$t" %s "$d/demo.py"\nr=$?\nrm -rf -- "$t"\nexit $r\n' % PY


def sh(cmd, cwd=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True)


stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
test_sh = open('/opt/vp/test.sh').read()


def original_lines(diff, root):
    """every removed line must exist unchanged since BASE"""
    out = []
    for part in re.split(r'^diff --git ', diff, flags=re.M)[1:]:
        f = re.search(r'^--- a/(.*)$', part, re.M).group(1)
        blame = sh('git blame -s --root HEAD -- %s' % f, '/repo').stdout.splitlines()
        line = 0
        for l in part.splitlines():
            m = re.match(r'^@@ -(\d+)', l)
            if m:
                line = int(m.group(1))
                continue
            if l.startswith('---') or l.startswith('+++') or not line:
                continue
            if l.startswith('-'):
                b = blame[line - 1]
                if not b.lstrip('^').startswith(BASE[:6]):
                    out.append((f, line, b[:60]))
            if not l.startswith('+'):
                line += 1
    return out


for s in spec['SEEDS']:
    if only and s['id'] not in only:
        continue
    shutil.rmtree(W, ignore_errors=True)
    shutil.copytree('/repo', W, symlinks=True)
    d = '/tmp/seed/out/' + s['id']
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + '/demo.sh', 'w').write(DEMO_SH)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
    clean = sh('bash %s/demo.sh' % d, W)
    err = None
    for f, old, new in s['edits']:
        p = os.path.join(W, 'fibertree', f)
        t = open(p).read()
        if t.count(old) != 1:
            err = 'edit matches %d times in %s: %r' % (t.count(old), f, old[:60])
            break
        open(p, 'w').write(t.replace(old, new))
    if err:
        print('SKIP', s['id'], err)
        continue
    diff = sh('git diff', W).stdout
    open(d + '/patch.diff', 'w').write(diff)
    bad = sh('bash %s/demo.sh' % d, W)
    orig = original_lines(diff, W)
    t = re.sub(r'/repo(?![a-z])', W, test_sh)
    tp = '/tmp/seed/test-%d.sh' % os.getpid()
    open(tp, 'w').write(t)
    o = '/tmp/seed/o-%d.json' % os.getpid()
    if os.path.exists(o):
        os.remove(o)
    sh('bash %s %s' % (tp, o), W)
    try:
        failed = sorted(stable - set(json.load(open(o))['passed']))
    except Exception as e:
        failed = ['no result: %s' % e]
    ok = clean.returncode == 0 and bad.returncode != 0 and not failed and not orig
    print('OK  ' if ok else 'BAD ', s['id'], s['prop'], 'clean', clean.returncode, 'patched', bad.returncode,
          'tests failing', len(failed), 'non-original', orig)
    if clean.returncode:
        print('   ', clean.stdout[-300:], clean.stderr[-500:])
    if failed:
        print('   ', failed[:4])
    if ok:
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['what']}, open(d + '/meta.json', 'w'), indent=1)
        dst = '/verif/seeded/' + s['id']
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
shutil.rmtree(W, ignore_errors=True)
