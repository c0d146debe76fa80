#!/usr/bin/env python3
"""Create and validate planted bugs.  seed.py gen NAME... | val [--tests] NAME... | all
Definitions live in tools/seeds/<NAME>.py:
  PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO = python source (may use sim, minisip)
"""
import sys, os, json, shutil, subprocess, tempfile, difflib, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SD = os.path.join(V, 'tools', 'seeds')
REPO = os.environ.get('SEED_REPO', '/repo')
PY = '/opt/venv/bin/python'


def load(n):
    ns = {}
    exec(open(os.path.join(SD, n + '.py')).read(), ns)
    return ns


def head(f):
    return subprocess.run(['git', '-C', REPO, 'show', 'HEAD:' + f], capture_output=True, text=True, check=True).stdout


def gen(n):
    d = load(n)
    out = os.path.join(V, 'seeded', n)
    os.makedirs(out, exist_ok=True)
    files = {}
    for f, old, new in d['EDITS']:
        s = files.setdefault(f, [head(f), None])
        cur = s[1] if s[1] is not None else s[0]
        if cur.count(old) != 1:
            raise SystemExit('%s: pattern occurs %d times in %s:\n%s' % (n, cur.count(old), f, old))
        s[1] = cur.replace(old, new)
    patch = ''
    for f, (a, b) in files.items():
        compile(b, f, 'exec')
        patch += 'diff --git a/%s b/%s\n' % (f, f)
        patch += ''.join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), 'a/' + f, 'b/' + f))
    open(os.path.join(out, 'patch.diff'), 'w').write(patch)
    open(os.path.join(out, 'demo.py'), 'w').write(d['DEMO'].lstrip('\n'))
    open(os.path.join(out, 'demo.sh'), 'w').write('''#!/bin/bash
# exit 0: behaves; nonzero: broken.  Run with the tree under test as working directory.
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_REPO="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:$here"
exec timeout -k 5 120 /opt/venv/bin/python "$here/demo.py"
''')
    os.chmod(os.path.join(out, 'demo.sh'), 0o755)
    for x in d.get('HELPERS', ('sim.py', 'minisip.py')):
        src = os.path.join(V, 'lib', x)
        if not os.path.exists(src):
            src = os.path.join(V, 'checks', x)
        shutil.copy(src, os.path.join(out, x))
    json.dump({'property': d['PROPERTY'], 'needs': d['NEEDS'], 'what_it_breaks': d['BREAKS']},
              open(os.path.join(out, 'meta.json'), 'w'), indent=1)


def val(n, tests=False, check=True):
    d = load(n)
    out = os.path.join(V, 'seeded', n)
    t = tempfile.mkdtemp(prefix='seed')
    res = [n, d['PROPERTY']]
    try:
        r = t + '/r'
        subprocess.run(['git', 'clone', '-q', REPO, r], check=True)
        lay = t + '/lay'
        shutil.copytree(out, lay)
        for x in ('patch.diff', 'meta.json'):
            os.unlink(os.path.join(lay, x))
        a = subprocess.run(['bash', lay + '/demo.sh'], cwd=r, capture_output=True, text=True)
        subprocess.run(['git', '-C', r, 'apply', os.path.join(out, 'patch.diff')], check=True)
        b = subprocess.run(['bash', lay + '/demo.sh'], cwd=r, capture_output=True, text=True)
        res.append('demo %d/%d' % (a.returncode, b.returncode))
        if a.returncode != 0:
            print(a.stdout[-500:], a.stderr[-1500:])
        if '-v' in sys.argv:
            print(b.stdout[-500:], b.stderr[-1500:])
        if tests:
            s = open('/opt/vp/test.sh').read().replace('/opt/vp/work', t + '/work').replace('/repo', r)
            open(t + '/test.sh', 'w').write(s)
            subprocess.run(['bash', t + '/test.sh', t + '/o.json'], capture_output=True)
            o = json.load(open(t + '/o.json'))
            st = json.load(open('/opt/vp/BASELINE.json'))['stable']
            txt = json.dumps(o)
            passed = o.get('passed') or o.get('pass') or []
            res.append('tests missing %s' % [x for x in st if x not in passed][:3])
        if check:
            t0 = time.time()
            c = subprocess.run([PY, os.path.join(V, 'checks', d['PROPERTY'].lower() + '.py')],
                               env=dict(os.environ, VERIF_REPO=r), capture_output=True, text=True, cwd=V)
            res.append('check rc=%d %.0fs %s' % (c.returncode, time.time() - t0, ' '.join(c.stdout.split('\n')[1:2])[:160]))
            if c.returncode == 2:
                res.append(c.stderr[-300:])
    finally:
        shutil.rmtree(t)
    print(' | '.join(str(x) for x in res), flush=True)


names = [a for a in sys.argv[2:] if not a.startswith('-')] or sorted(x[:-3] for x in os.listdir(SD) if x.endswith('.py'))
for n in names:
    if sys.argv[1] in ('gen', 'all'):
        gen(n)
for n in names:
    if sys.argv[1] in ('val', 'all'):
        val(n, '--tests' in sys.argv, '--nocheck' not in sys.argv)
