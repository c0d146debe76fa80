#!/usr/bin/env python3
"""Try textual mutations against a check: mut.py check.py file 'old' 'new' [n]  (scratch copy under /tmp)"""
import sys, os, shutil, subprocess, tempfile, time
chk, fn, old, new = sys.argv[1:5]
nth = int(sys.argv[5]) if len(sys.argv) > 5 else 0
d = tempfile.mkdtemp(prefix='mut')
try:
    shutil.copytree(os.environ.get('MUT_REPO', '/repo') + '/sippy', d + '/sippy')
    p = os.path.join(d, fn)
    s = open(p).read()
    parts = s.split(old)
    if len(parts) < 2:
        print('NOT FOUND', old); sys.exit(3)
    s2 = old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:])
    open(p, 'w').write(s2)
    compile(s2, p, 'exec')
    t = time.time()
    r = subprocess.run(['/opt/venv/bin/python', os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'checks', chk)],
                       env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
    l = r.stdout.strip().split('\n')
    print('rc=%d %.1fs %s' % (r.returncode, time.time() - t, ' | '.join(l[:2])[:300]))
    if r.returncode == 2: print(r.stderr[-800:])
finally:
    shutil.rmtree(d)
