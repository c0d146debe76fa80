#!/usr/bin/env python3
"""Rewrite section 5 of DESIGN.md from tools/seeds/*.py."""
import os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(V + '/tools/seeds/s*.py')):
    ns = {}
    exec(open(f).read(), ns)
    ef = ', '.join(sorted({e[0].replace('sippy/', '') for e in ns['EDITS']}))
    rows.append('| %s | %s | %s | %s | %s |' % (os.path.basename(f)[:-3], ns['PROPERTY'], ef, ns['NEEDS'], ns.get('NOTE', 'caught')))
text = '''## 5. Planted bugs

Each was confirmed in a scratch clone (demonstration 0 without and nonzero with the patch, stable tests passing) and is caught by the check of its property
(`tools/seed.py all --tests`). "strengthened": the check missed it at first and was extended. Besides these, `tools/mut.py` and `tools/automut.py` ran several
thousand single mutations of the sources through the checks; survivors were either equivalent or led to new parts of the checks.

| seed | property | file | needs | check |
|---|---|---|---|---|
''' + '\n'.join(rows) + '\n\n'
s = open(V + '/DESIGN.md').read()
if '@@SEEDS@@' in s:
    s = s.replace('@@SEEDS@@\n\n', text)
else:
    s = re.sub(r'## 5\. Planted bugs.*?(?=## 6\. )', lambda m: text, s, flags=re.S)
open(V + '/DESIGN.md', 'w').write(s)
