"""mutate.py gen|test|check ... -- a mutation sweep of the checks.

  gen  OUT.jsonl                 all mutants of src/ncdiff/*.py
  test IN.jsonl OUT.jsonl [N SEED [JOBS]]   those that pass the stable tests
  check IN.jsonl OUT.jsonl [JOBS [N SEED]]  which check catches each of them

Works on copies of /repo below /tmp/mut; never touches /repo.  This measures
the machinery; no registered check uses it."""
import warnings
warnings.simplefilter("ignore")
import ast
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from threading import Lock
import queue

FILES = ['calculator.py', 'composer.py', 'config.py', 'manager.py',
         'model.py', 'netconf.py', 'ref.py', 'runningconfig.py',
         '__init__.py']
ORDER = {
    'runningconfig.py': ['C13', 'C14', 'C12'],
    'model.py': ['C15', 'C23', 'C16', 'C17', 'C18', 'C21', 'C09', 'C22'],
    'manager.py': ['C22', 'C09', 'C21', 'C19', 'C20', 'C05', 'C24'],
    'composer.py': ['C09', 'C05', 'C21', 'C20', 'C08', 'C19'],
    'config.py': ['C05', 'C08', 'C11', 'C04', 'C07', 'C06', 'C02', 'C01',
                  'C03', 'C20', 'C24'],
    'calculator.py': ['C04', 'C10', 'C06', 'C02', 'C01', 'C03', 'C07', 'C05'],
    'netconf.py': ['C03', 'C01', 'C07', 'C05', 'C02',
                   'C10'],
    'ref.py': ['C10', 'C05', 'C02', 'C01'],
    '__init__.py': ['C19', 'C21', 'C01'],
}
CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<',
       ast.Gt: '>=', ast.GtE: '>', ast.In: 'not in', ast.NotIn: 'in',
       ast.Is: 'is not', ast.IsNot: 'is'}


def mutants(fn):
    src = open('/repo/src/ncdiff/' + fn).read()
    lines = src.splitlines(True)
    offs = [0]
    for ln in lines:
        offs.append(offs[-1] + len(ln))

    def span(n):
        # columns are utf-8 byte offsets; the sources are ascii
        return (offs[n.lineno - 1] + n.col_offset,
                offs[n.end_lineno - 1] + n.end_col_offset)

    out = []

    def add(n, new, kind):
        a, b = span(n)
        old = src[a:b]
        if old != new:
            out.append(dict(file=fn, line=n.lineno, a=a, b=b, old=old,
                            new=new, kind=kind))

    def text(n):
        a, b = span(n)
        return src[a:b]

    def logs(n):
        return 'logger.' in text(n)[:8]
    tree = ast.parse(src)
    for n in ast.walk(tree):
        if isinstance(n, (ast.If, ast.While)):
            add(n.test, 'not ({})'.format(text(n.test)), 'negate')
        if isinstance(n, ast.IfExp):
            add(n.test, 'not ({})'.format(text(n.test)), 'negate')
        if isinstance(n, ast.comprehension):
            for c in n.ifs:
                add(c, 'True', 'nofilter')
        if isinstance(n, ast.BoolOp):
            for i in range(len(n.values)):
                rest = [text(v) for j, v in enumerate(n.values) if j != i]
                op = ' and ' if isinstance(n.op, ast.And) else ' or '
                add(n, '(' + op.join('(' + r + ')' for r in rest) + ')',
                    'dropterm')
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            add(n, '{} {} {}'.format(text(n.left), CMP[type(n.ops[0])],
                                     text(n.comparators[0])), 'cmp')
        if isinstance(n, ast.Constant) and type(n.value) is int:
            add(n, str(n.value + 1), 'int')
            if n.value:
                add(n, str(n.value - 1), 'int')
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            add(n, str(not n.value), 'bool')
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            add(n, text(n.value), 'noslice')
        if isinstance(n, ast.Call):
            f = text(n.func)
            if f.split('.')[-1] == 'deepcopy' and n.args:
                add(n, text(n.args[0]), 'nocopy')
            if f in ('list', 'sorted', 'reversed', 'set') and \
                    len(n.args) == 1 and not n.keywords:
                add(n, text(n.args[0]), 'no' + f)
            if isinstance(n.func, ast.Attribute) and n.func.attr in (
                    'strip', 'rstrip', 'lstrip', 'lower'):
                add(n, text(n.func.value), 'nostrip')
        if isinstance(n, (ast.Expr, ast.AugAssign, ast.Delete, ast.Continue,
                          ast.Break)):
            if isinstance(n, ast.Expr) and (
                    isinstance(n.value, ast.Constant) or logs(n)):
                continue
            add(n, 'pass', 'delstmt')
        if isinstance(n, (ast.For,)):
            last = n.body[-1]
            a, b = span(last)
            ind = ' ' * n.body[0].col_offset
            out.append(dict(file=fn, line=n.lineno, a=b, b=b, old='',
                            new='\n' + ind + 'break', kind='once'))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, text(n.operand), 'nonot')
    seen = set()
    res = []
    for m in out:
        k = (m['a'], m['b'], m['new'])
        # dependencies.xml would go to a folder of the installation
        if k in seen or 'dirs[0]' in src[m['a'] - 9:m['b'] + 9]:
            continue
        seen.add(k)
        new = src[:m['a']] + m['new'] + src[m['b']:]
        try:
            compile(new, fn, 'exec')
        except SyntaxError:
            continue
        res.append(m)
    return res


def workdir(i):
    d = '/tmp/mut/w{}'.format(i)
    if os.path.exists(d):
        shutil.rmtree(d)
    subprocess.run(['cp', '-a', '/repo', d], check=True)
    return d


class Mut(object):
    def __init__(self, d, m):
        self.p = os.path.join(d, 'src/ncdiff', m['file'])
        self.m = m

    def __enter__(self):
        self.src = open(self.p).read()
        m = self.m
        assert self.src[m['a']:m['b']] == m['old'], m
        with open(self.p, 'w') as f:
            f.write(self.src[:m['a']] + m['new'] + self.src[m['b']:])

    def __exit__(self, *a):
        with open(self.p, 'w') as f:
            f.write(self.src)


def purge(d):
    y = d + '/src/ncdiff/tests/yang'
    subprocess.run(['git', '-C', d, 'clean', '-fdqx', y])


def run_tests(d, m):
    purge(d)
    env = dict(os.environ, PYTHONPATH=d + '/src', PYTHONHASHSEED='0',
               PYTHONDONTWRITEBYTECODE='1')
    with Mut(d, m):
        try:
            r = subprocess.run(
                ['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p',
                 'no:cacheprovider', '--timeout=30', 'src'], cwd=d, env=env,
                capture_output=True, text=True, timeout=300)
            return r.returncode == 0 and '102 passed' in r.stdout
        except subprocess.TimeoutExpired:
            return False


def run_check(d, m, cid):
    purge(d)
    env = dict(os.environ, NCDIFF_REPO=d, VERIF_TIER='quick', VERIF_SEED='1',
               MC_FAILFAST='1')
    with Mut(d, m):
        try:
            r = subprocess.run(
                ['/opt/venv/bin/python', 'mc/run.py', cid], cwd='/tmp/mut/v',
                env=env, capture_output=True, text=True, timeout=600)
            return r.returncode, (r.stdout + r.stderr)[-300:]
        except subprocess.TimeoutExpired:
            return 'timeout', ''


def pool(items, jobs, fn):
    q = queue.Queue()
    for i in range(jobs):
        q.put(workdir(i))

    def one(m):
        d = q.get()
        try:
            return fn(d, m)
        finally:
            q.put(d)
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, items))


def load(fn):
    return [json.loads(x) for x in open(fn)] if os.path.exists(fn) else []


def key(m):
    return (m['file'], m['a'], m['b'], m['new'])


def main():
    lock = Lock()
    if sys.argv[1] == 'gen':
        with open(sys.argv[2], 'w') as f:
            for fn in FILES:
                ms = mutants(fn)
                print(fn, len(ms))
                for m in ms:
                    f.write(json.dumps(m) + '\n')
    elif sys.argv[1] == 'test':
        ms = load(sys.argv[2])
        if len(sys.argv) > 4:
            random.Random(int(sys.argv[5])).shuffle(ms)
            ms = ms[:int(sys.argv[4])]
        jobs = int(sys.argv[6]) if len(sys.argv) > 6 else 8
        done = {key(m) for m in load(sys.argv[3] + '.done')}
        ms = [m for m in ms if key(m) not in done]

        def fn(d, m):
            ok = run_tests(d, m)
            with lock:
                with open(sys.argv[3] + '.done', 'a') as f:
                    f.write(json.dumps(m) + '\n')
                if ok:
                    with open(sys.argv[3], 'a') as f:
                        f.write(json.dumps(m) + '\n')
        pool(ms, jobs, fn)
    else:
        ms = load(sys.argv[2])
        jobs = int(sys.argv[4]) if len(sys.argv) > 4 else 3
        if len(sys.argv) > 6:
            random.Random(int(sys.argv[6])).shuffle(ms)
            ms = ms[:int(sys.argv[5])]
        done = {key(m) for m in load(sys.argv[3])}
        ms = [m for m in ms if key(m) not in done]

        def fn(d, m):
            res = {}
            for cid in ORDER[m['file']]:
                rc, out = run_check(d, m, cid)
                res[cid] = rc
                if rc == 1:
                    break
                if rc != 0:
                    res[cid] = [rc, out]
            m['result'] = res
            m['caught'] = next((c for c, r in res.items() if r == 1), None)
            with lock:
                with open(sys.argv[3], 'a') as f:
                    f.write(json.dumps(m) + '\n')
        pool(ms, jobs, fn)


main()
