"""seed.py SPEC.py [ids] -- make /verif/seeded/<id>/ from specs and confirm:
builds, stable tests pass, demo passes without and fails with the patch, and
report whether the property's check catches it.

A spec file defines SEEDS = [dict(id, property, edits=[(file, old, new)],
demo=python text, needs, breaks)]."""
import json
import os
import shutil
import subprocess
import sys

REPO = '/tmp/seedrepo'     # a copy; /repo itself is never touched
V = '/verif'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True,
                          **kw)


def clean():
    sh('git -C {} checkout -- .'.format(REPO))


def tests_pass():
    sh('git clean -fdqx src/ncdiff/tests/yang', cwd=REPO)
    r = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider '
           '--timeout=30 src | tail -3', cwd=REPO,
           env=dict(os.environ, PYTHONPATH=REPO + '/src', PYTHONHASHSEED='0',
                    PYTHONDONTWRITEBYTECODE='1'))
    return [] if '102 passed' in r.stdout and 'failed' not in r.stdout \
        else [r.stdout]


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    shutil.rmtree(REPO, True)
    sh('cp -a ' + os.environ.get('SRC', '/repo') + ' ' + REPO)
    only = [a for a in sys.argv[2:] if not a.startswith('-')]
    nocheck = '--nocheck' in sys.argv
    for s in ns['SEEDS']:
        if only and s['id'] not in only:
            continue
        assert not sh('git -C {} status --porcelain'.format(REPO)).stdout.strip()
        d = os.path.join(V, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        with open(d + '/demo.py', 'w') as f:
            f.write(s['demo'])
        with open(d + '/demo.sh', 'w') as f:
            f.write('#!/bin/bash\n'
                    'export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0\n'
                    'exec timeout 250 /opt/venv/bin/python '
                    '"$(dirname "$0")/demo.py"\n')
        os.chmod(d + '/demo.sh', 0o755)
        libs = s.get('lib', [])
        for lib in [libs] if isinstance(libs, str) else libs:
            shutil.copy(lib, d)
        json.dump({'property': s['property'], 'needs': s['needs'],
                   'what_it_breaks': s['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
        r0 = sh(d + '/demo.sh', cwd=REPO)
        try:
            for fn, old, new in s['edits']:
                p = os.path.join(REPO, 'src/ncdiff', fn)
                t = open(p).read()
                if t.count(old) != 1:
                    raise SystemExit('{}: {} occurrences of\n{}'.format(
                        s['id'], t.count(old), old))
                open(p, 'w').write(t.replace(old, new))
            diff = sh('git -C {} diff'.format(REPO)).stdout
            with open(d + '/patch.diff', 'w') as f:
                f.write(diff)
            miss = tests_pass()
            r1 = sh(d + '/demo.sh', cwd=REPO)
            caught = None
            out = ''
            if not nocheck:
                r = sh('/opt/venv/bin/python mc/run.py ' + s['property'],
                       cwd=V, env=dict(os.environ, NCDIFF_REPO=REPO))
                caught = r.returncode
                out = r.stdout[:300] + r.stderr[-300:]
        finally:
            clean()
        ok = not miss and r0.returncode == 0 and r1.returncode != 0
        print('{} {} {} tests_missing={} demo={}/{} check_rc={}'.format(
            'GOOD' if ok else 'BAD ', s['id'], s['property'], miss[:3],
            r0.returncode, r1.returncode, caught), flush=True)
        if not ok:
            print('   demo clean:', (r0.stdout + r0.stderr)[-400:])
            print('   demo patched:', (r1.stdout + r1.stderr)[-400:])
            shutil.rmtree(d)
        elif caught != 1:
            print('   MISSED', out)


main()
shutil.rmtree(REPO, True)
