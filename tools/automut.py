#!/usr/bin/env python3
"""automut.py check.py[,check2.py] sippy/File.py [line-line] : delete statements / negate conditions one by one in a
scratch copy and list the changes that no given check notices."""
import ast, os, sys, shutil, subprocess, tempfile, concurrent.futures as cf
PY = '/opt/venv/bin/python'
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = sys.argv[1].split(',')
fn = sys.argv[2]
lo, hi = 0, 10 ** 9
if len(sys.argv) > 3:
    lo, hi = map(int, sys.argv[3].split('-'))
REPO = os.environ.get('AM_REPO', '/repo')
src = open(REPO + '/' + fn).read()
lines = src.splitlines(True)
tree = ast.parse(src)
muts = []


def rep(node, text):
    a, b = node.lineno - 1, node.end_lineno
    ind = lines[a][:node.col_offset]
    if ind.strip():
        return None
    return ''.join(lines[:a]) + ind + text + '\n' + ''.join(lines[b:])


class F(ast.NodeVisitor):
    def visit_FunctionDef(self, n):
        for st in ast.walk(n):
            if not hasattr(st, 'lineno') or not lo <= st.lineno <= hi:
                continue
            if isinstance(st, (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete)):
                if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                    continue
                seg = ast.get_source_segment(src, st)
                if 'print(' in seg:
                    continue
                muts.append((st.lineno, 'del', seg.split('\n')[0], rep(st, 'pass')))
            elif isinstance(st, ast.Return) and st.value is not None and not (isinstance(st.value, ast.Constant) and st.value.value is None):
                muts.append((st.lineno, 'ret', ast.get_source_segment(src, st).split('\n')[0], rep(st, 'return None')))
            elif isinstance(st, (ast.Return, ast.Continue, ast.Break)):
                muts.append((st.lineno, 'del', ast.get_source_segment(src, st).split('\n')[0], rep(st, 'pass')))
            elif isinstance(st, (ast.If, ast.While)):
                t = st.test
                tests = [('neg', t)] + [('true', v) for v in (t.values if isinstance(t, ast.BoolOp) else [])]
                for k, v in tests:
                    seg = ast.get_source_segment(src, v)
                    a = sum(len(l) for l in lines[:v.lineno - 1]) + len(lines[v.lineno - 1].encode()[:v.col_offset].decode())
                    if src[a:a + len(seg)] != seg:
                        continue
                    op = isinstance(t, ast.BoolOp) and isinstance(t.op, ast.Or)
                    new = '(not (%s))' % seg if k == 'neg' else ('False' if op else 'True')
                    muts.append((v.lineno, k, seg.split('\n')[0], src[:a] + new + src[a + len(seg):]))


F().visit(tree)
seen = set()
todo = []
for m in muts:
    if m[3] and m[3] not in seen:
        seen.add(m[3])
        try:
            compile(m[3], fn, 'exec')
        except SyntaxError:
            continue
        todo.append(m)


def run(m):
    d = tempfile.mkdtemp(prefix='am.', dir='/tmp')
    try:
        subprocess.run(['cp', '-a', REPO + '/sippy', d + '/sippy'], check=True)
        open(os.path.join(d, fn), 'w').write(m[3])
        res = []
        for c in checks:
            env = dict(os.environ, VERIF_REPO=d, VERIF_NPROC='1', VERIF_OUT=d)
            try:
                p = subprocess.run([PY, os.path.join(V, 'checks', c)], env=env, capture_output=True, text=True, timeout=400, cwd=d)
                res.append(p.returncode)
            except subprocess.TimeoutExpired:
                res.append('T')
            if res[-1] == 1:
                break
        return m, res
    finally:
        shutil.rmtree(d, ignore_errors=True)


surv = []
with cf.ThreadPoolExecutor(int(os.environ.get('AM_JOBS', '8'))) as ex:
    for m, res in ex.map(run, todo):
        if 1 not in res and 2 not in res:
            print('   ', m[:3], res, flush=True)
        if 1 not in res:
            surv.append((m, res))
print('%s: %d mutants, %d survive' % (fn, len(todo), len(surv)))
for m, res in sorted(surv, key=lambda x: x[0][0]):
    print('  %d %s %s %s' % (m[0], m[1], m[2], res))
