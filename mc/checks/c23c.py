"""Third part of C23: paths of leafrefs, in the files of several modules."""
import itertools

import core
from core import Stats, pmap, chunks
from checks.c23 import E, Env, resolve, count, problems, home

# nodes of the modules a, c and e that leaves can refer to
TREE = {'a': 'container t { leaf x { type string; } container y { leaf z { '
             'type string; } } }',
        'c': 'augment /a:t { container ct { leaf cx { type string; } } }',
        'e': 'augment /a:t/c:ct { container et { leaf ex { type string; } } }'}
PATHS = ['a:t a:x', 'a:t a:y a:z', 'a:t c:ct c:cx', 'a:t c:ct e:et e:ex']
# file with the leaf -> (its prefix, what it can refer to)
FILES = {'a': ('a', 'a'), 'as': ('a', 'a'), 'c': ('c', 'ac'),
         'cs': ('c', 'ac'), 'e': ('e', 'ace')}
# where the leaf is; how many levels below the root
WHERE = {'a': {'top': 1, 't': 2}, 'as': {'top': 1},
         'c': {'t': 2, 'ct': 3}, 'cs': {'t': 2},
         'e': {'t': 2, 'ct': 3, 'et': 4}}
TARGET = {'t': '/a:t', 'ct': '/a:t/c:ct', 'et': '/a:t/c:ct/e:et'}


def styles(own, path):
    """The ways to write a path. A name without a prefix is only written where
    the module of the file is the one of the previous name."""
    opts = []
    cur = own
    for step in path:
        m, _, n = step.rpartition(':')
        opts.append([step] if not m or m != own or cur != own
                    else [step, n])
        cur = m or cur
    return itertools.product(*opts)


def compact(own, path):
    out = []
    cur = own
    for step in path:
        m, _, n = step.rpartition(':')
        out.append(n if not m or m == cur else step)
        cur = m or cur
    return out


def leaves(file, where):
    own, can = FILES[file]
    for p in PATHS:
        path = p.split()
        if any(s[0] not in can for s in path):
            continue
        for q in styles(own, path):
            yield '/' + '/'.join(q), '/' + '/'.join(compact(own, path))
        up = WHERE[file][where]
        rel = ['..'] * up + path
        for q in styles(own, rel):
            yield '/'.join(q), '/'.join(compact(own, rel))
        # up to t only
        if up > 1:
            rel = ['..'] * (up - 1) + path[1:]
            for q in styles(own, rel):
                yield '/'.join(q), '/'.join(compact(own, rel))


def build(file, where, how):
    env = Env()
    for f, t in TREE.items():
        env.files[f].append(t)
    text, es = [], []
    kw = 'leaf' if how != 'leaf-list' else 'leaf-list'
    for i, (p, want) in enumerate(dict.fromkeys(leaves(file, where))):
        text.append('{} r{} {{ type leafref {{ path "{}"; }} }}'.format(
            kw, i, p))
        es.append(E(kw, 'r{}'.format(i), datatype='-> ' + want))
    text = '\n'.join(text)
    if how == 'grouping':
        env.files[file].append('grouping gg {{ {} }}'.format(text))
        text = 'uses gg;'
    own = FILES[file][0]
    home(es, own)
    s = {'datatype': 'string'}
    et = home([E('container', 'et', home([E('leaf', 'ex', **s)], 'e'))], 'e')
    ct = home([E('container', 'ct', home([E('leaf', 'cx', **s)], 'c') + et)],
              'c')
    t = E('container', 't', [
        E('leaf', 'x', **s), E('container', 'y', [E('leaf', 'z', **s)])] + ct)
    roots = [t]
    if where == 'top':
        env.files[file].append(text)
        roots = [t] + es
    else:
        env.files[file].append('augment {} {{ {} }}'.format(
            TARGET[where], text))
        {'t': t, 'ct': ct[0], 'et': et[0]}[where].kids.extend(es)
    return env.text(), resolve(roots, 'a', True, None)


def run_cases(cs):
    core.import_ncdiff()
    st = Stats()
    for case in cs:
        files, exp = build(*case)
        st.states += 1
        st.transitions += count(exp)
        st.traces += count(exp)
        out = problems(files, exp, ordered=False)
        if out:
            st.violation('leafref|' + '|'.join(case),
                         'leafrefs in {} at {} ({}):\n{}'.format(
                             *case, '\n'.join(out[:6])),
                         {'files': files, 'problems': out[:50]})
    return st


def check(run):
    cs = [(f, w, h) for f in FILES for w in WHERE[f]
          for h in ('leaf', 'leaf-list', 'grouping')]
    for s in pmap(run_cases, chunks(cs, 4)):
        run.merge(s)
    run.extra['leafref_cases'] = len(cs)
