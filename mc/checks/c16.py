"""C16  What a model is compiled to depends on the YANG files only: not on
what was compiled before, on caches, on a new session, on the order of a
directory listing or on hash seeds."""
import hashlib
import itertools
import json
import os
import shutil
import subprocess
import sys

if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))))

import core
from core import Stats, pmap


def mod(name, prefix, body, imports=(), include=(), ns=None):
    return '\n'.join(
        ['module {} {{'.format(name), ' yang-version 1.1;',
         ' namespace "{}";'.format(ns or 'urn:' + name),
         ' prefix {};'.format(prefix)] +
        [' import {} {{ prefix {}; }}'.format(m, p) for m, p in imports] +
        [' include {};'.format(s) for s in include] +
        [' revision 2020-01-01;', body, '}'])


def sub(name, parent, prefix, body, imports=()):
    return '\n'.join(
        ['submodule {} {{'.format(name), ' yang-version 1.1;',
         ' belongs-to {} {{ prefix {}; }}'.format(parent, prefix)] +
        [' import {} {{ prefix {}; }}'.format(m, p) for m, p in imports] +
        [' revision 2020-01-01;', body, '}'])


FOLDERS = {
    # identities with bases in other modules, in the same one, in a submodule
    'identities': {
        'ma': mod('ma', 'a', '''
 identity b1; identity loc { base b1; } identity loc2 { base a:loc; }
 leaf la { type identityref { base b1; } }
 leaf la2 { type identityref { base loc; } }
 container ca { leaf x { type string; } }'''),
        'mb': mod('mb', 'b', '''
 identity idb { base a:b1; } identity own; identity own2 { base own; }
 identity two { base own; base a:loc; }
 leaf lb { type identityref { base a:b1; } }
 leaf lb2 { type identityref { base own; } }
 augment /a:ca { leaf fromb { type identityref { base own; } } }''',
                  [('ma', 'a')]),
        'mc': mod('mc', 'c', '''
 identity idc { base b:idb; } identity idc1 { base a:b1; }
 leaf lc { type identityref { base a:b1; } }
 leaf lc2 { type identityref { base b:idb; } }
 augment /a:ca { leaf fromc { type string; } }''',
                  [('mb', 'b'), ('ma', 'a')], ['mc-sub']),
        'mc-sub': sub('mc-sub', 'mc', 'c', '''
 identity ids { base aaa:b1; }
 leaf ls { type identityref { base aaa:b1; } }''', [('ma', 'aaa')]),
    },
    # groupings, typedefs, augments of augments, deviations
    'augments': {
        'ma': mod('ma', 'a', '''
 grouping g { leaf gx { type string; } container gc { leaf y {
   type t; default 3; } } }
 typedef t { type int8; }
 container top { list li { key k; leaf k { type string; } uses g; } }
 choice ch { case c1 { leaf c1l { type string; } } }
 rpc go { input { leaf i { type t; } } output { leaf o { type t; } } }
 notification nt { leaf n { type t; } }'''),
        'mb': mod('mb', 'b', '''
 augment /a:top/a:li { container fb { uses a:g; } }
 augment /a:ch { case c2 { leaf c2l { type a:t; } } }
 leaf lb { type leafref { path "/a:top/a:li/a:k"; } }''', [('ma', 'a')]),
        'mc': mod('mc', 'c', '''
 augment /a:top/a:li/b:fb/b:gc { leaf fc { type string; } }
 augment /a:go/a:input { leaf ci { type string; } }
 container cc { uses a:g { refine gx { default "r"; } } }''',
                  [('ma', 'a'), ('mb', 'b')]),
        'md': mod('md', 'd', '''
 deviation /a:top/a:li/a:gx { deviate not-supported; }
 deviation /a:nt/a:n { deviate add { default 1; } }''', [('ma', 'a')]),
    },
    # two modules with the same prefix, and names that share a beginning
    'prefixes': {
        'ma': mod('ma', 'p', 'container top { leaf x { type string; } } '
                  'leaf l { type string; }'),
        'ma-x': mod('ma-x', 'p', 'augment /q:top { leaf y { type string; } } '
                    'leaf l { type q:none; } container top;'
                    .replace('q:none', 'string'), [('ma', 'q')]),
        'zz': mod('zz', 'z', 'augment /q:top { leaf w { type string; } } '
                  'augment /r:top { leaf v { type string; } }',
                  [('ma', 'q'), ('ma-x', 'r')]),
    },
}


def ops(folder, thorough):
    mods = sorted(FOLDERS[folder])
    return [('compile', m) for m in mods] + [
        ('new', None), ('drop', None), ('scrub', None)] + [
        ('other', m) for m in mods if m in FOLDERS[other(folder)]][:2]


def other(folder):
    """Another folder, with other modules of the same names."""
    names = sorted(FOLDERS)
    return names[(names.index(folder) + 1) % len(names)]


def histories(folder, depth, thorough):
    """Sequences of operations that end with a compilation."""
    mods = sorted(FOLDERS[folder])
    o = ops(folder, thorough)
    out = list(itertools.permutations([('compile', m) for m in mods]))
    for d in range(1, depth + 1):
        for h in itertools.product(o, repeat=d):
            if h[-1][0] not in ('compile', 'other'):
                continue
            # two resets in a row, or a reset before anything, say nothing
            if h[0][0] not in ('compile', 'other') and d > 1:
                continue
            out.append(h)
    return out


def form(model):
    from lxml import etree
    return json.dumps({
        'name': model.name, 'prefix': model.prefix, 'url': model.url,
        'prefixes': sorted(model.prefixes.items()),
        'urls': sorted(model.urls.items()), 'roots': model.roots,
        'text': str(model),
        'tree': etree.tostring(model.tree, method='c14n').decode()})


def worker(folder, depth, thorough, reverse):
    """Run all histories in this process; report each result once."""
    core.import_ncdiff()
    from ncdiff import ModelCompiler
    real = os.listdir

    def listdir(*a, **k):
        return sorted(real(*a, **k), reverse=reverse)
    os.listdir = listdir
    base = core.scratch('mc-c16-')
    dirs = {f: os.path.join(base, f) for f in (folder, other(folder))}
    d = dirs[folder]
    out = {'forms': {}, 'histories': 0, 'compiles': 0}
    try:
        for name, x in dirs.items():
            os.makedirs(x)
            for m, t in FOLDERS[name].items():
                with open(os.path.join(x, m + '.yang'), 'w') as f:
                    f.write(t)
        for h in histories(folder, depth, thorough):
            for x in dirs.values():
                for f in real(x):
                    if not f.endswith('.yang'):
                        os.remove(os.path.join(x, f))
            compiler = ModelCompiler(d)
            out['histories'] += 1
            for op, arg in h:
                if op == 'new':
                    compiler = ModelCompiler(d)
                elif op in ('drop', 'scrub'):
                    for f in real(d):
                        if f.endswith('.xml') and (
                                op == 'scrub' or f != 'dependencies.xml'):
                            os.remove(os.path.join(d, f))
                else:
                    out['compiles'] += 1
                    name = folder
                    try:
                        if op == 'other':
                            name = other(folder)
                            c = ModelCompiler(dirs[name])
                        else:
                            c = compiler
                        r = form(c.compile(arg))
                    except Exception as e:
                        r = '{}: {}'.format(type(e).__name__, e)
                    out['forms'].setdefault(
                        name + '/' + arg, {}).setdefault(
                        r, ' '.join('{}{}'.format(
                            o, ':' + a if a else '') for o, a in h))
    finally:
        shutil.rmtree(base, ignore_errors=True)
    print(json.dumps(out))


THOROUGH = False


def spawn(item):
    folder, depth, seed = item
    env = dict(os.environ, PYTHONHASHSEED=str(seed),
               PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run(
        [sys.executable, os.path.abspath(__file__), folder, str(depth),
         str(int(THOROUGH)), str(seed % 2)], env=env,
        stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise core.CheckError(p.stderr.decode()[-2000:])
    return {'item': item, 'out': json.loads(p.stdout)}


def expected_error(folder, m):
    return FOLDERS[folder][m].startswith('submodule')


def check(run):
    global THOROUGH
    THOROUGH = run.thorough
    core.import_ncdiff()
    seeds = range(8) if run.thorough else range(4)
    items = [(f, 4 if run.thorough or s == 0 else 3, s)
             for s in seeds for f in FOLDERS]
    items.sort(key=lambda i: -i[1])
    seen = {}
    for r in pmap(spawn, items):
        (folder, depth, seed), out = r['item'], r['out']
        run.states += out['histories']
        run.transitions += out['compiles']
        run.traces += out['compiles']
        for m, forms in out['forms'].items():
            folder, m = m.split('/')
            for text, hist in forms.items():
                seen.setdefault((folder, m), {}).setdefault(
                    text, 'hash seed {}: {}'.format(seed, hist))
    for (folder, m), forms in sorted(seen.items()):
        if len(forms) > 1:
            (t1, h1), (t2, h2) = sorted(forms.items())[:2]
            run.violation(
                'differs|{}|{}'.format(folder, m),
                '{} different results for model {} of folder {}, e.g. after\n'
                '{}\n{}\nbut after\n{}\n{}'.format(
                    len(forms), m, folder, h1, t1, h2, t2),
                {'folder': FOLDERS[folder], 'model': m,
                 'histories': sorted(forms.values())})
        for t, h in forms.items():
            if (t.startswith('ValueError: ') if expected_error(folder, m)
                    else t.startswith('{')) is False:
                run.violation('error|{}|{}'.format(folder, m),
                              'model {} of folder {}: {} after {}'.format(
                                  m, folder, t, h),
                              {'folder': FOLDERS[folder], 'model': m})
    # the model is its own module, whatever else uses the same prefix
    for (folder, m), forms in sorted(seen.items()):
        for t, h in forms.items():
            if not t.startswith('{'):
                continue
            f = json.loads(t)
            if (f['name'], f['url']) != (m, 'urn:' + m):
                run.violation('self|{}|{}'.format(folder, m),
                              'model {} of folder {} is {} with url {} after '
                              '{}'.format(m, folder, f['name'], f['url'], h),
                              {'folder': FOLDERS[folder], 'model': m})
    run.extra.update(folders=len(FOLDERS), hash_seeds=len(list(seeds)))
    run.sample({'folder': 'identities', 'history':
                'compile:mb drop compile:ma new compile:mc'})
    run.assumptions += [
        'operations: compile(m), compile a module of the same name in '
        'another folder, new compiler, drop model caches, drop all '
        'caches; at most {} of them'.format(4),
        'YANG files do not change between compilations']


if __name__ == '__main__':
    worker(sys.argv[1], int(sys.argv[2]), bool(int(sys.argv[3])),
           bool(int(sys.argv[4])))
