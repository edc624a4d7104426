"""Second part of C23: refine and deviation statements."""
import itertools

import core
from core import Stats, pmap, chunks
from checks import c23
from checks.c23 import E, Env, resolve, count, problems, home

BODY = '''leaf p { type string; }
 leaf d { type int8; default 3; }
 leaf m { type string; mandatory true; }
 leaf td { type ty:dflt; }
 container c { leaf x { type string; } }
 container pc { presence p; leaf x { type string; } }
 leaf-list ll { type string; }
 list li { key k; leaf k { type string; } leaf x { type string; } }
 choice ch { case c1 { leaf c1l { type string; } } leaf c2 { type string; } }
 choice dch { default d1; leaf d1 { type string; } }
 anyxml ax;'''


def nodes():
    s = dict(datatype='string')
    key = dict(s, is_key='true', mandatory='true')
    return [
        E('leaf', 'p', **s), E('leaf', 'd', datatype='int8', default='3'),
        E('leaf', 'm', mandatory='true', **s),
        E('leaf', 'td', datatype='ty:dflt', default='5'),
        E('container', 'c', [E('leaf', 'x', **s)]),
        E('container', 'pc', [E('leaf', 'x', **s)], presence='true'),
        E('leaf-list', 'll', **s),
        E('list', 'li', [E('leaf', 'k', **key), E('leaf', 'x', **s)],
          key='k'),
        E('choice', 'ch', [E('case', 'c1', [E('leaf', 'c1l', **s)]),
                           E('case', 'c2', [E('leaf', 'c2', **s)])]),
        E('choice', 'dch', [E('case', 'd1', [E('leaf', 'd1', **s)])],
          default='d1'),
        E('anyxml', 'ax')]


def find(es, path):
    e = None
    for p in path.split('/'):
        e = [x for x in es if x.name == p][0]
        es = e.kids
    return e


def put(**attrs):
    def f(e):
        for k, v in attrs.items():
            if k == 'config':
                e.config = v
            elif v is None:
                e.attrs.pop(k.replace('_', '-'), None)
            else:
                e.attrs[k.replace('_', '-')] = v
    return f


REFINE = [
    ('p', 'default "x y";', put(default='x y')),
    ('p', 'mandatory true;', put(mandatory='true')),
    ('p', 'config false;', put(config=False)),
    ('p', 'if-feature fa;', put(if_feature='fa')),
    ('p', 'description "z";', put()),
    ('d', 'default 4;', put(default='4')),
    ('d', 'config false;', put(config=False)),
    ('m', 'mandatory false;', put(mandatory=None)),
    ('td', 'default 6;', put(default='6')),
    ('td', 'mandatory true;', put(mandatory='true', default=None)),
    ('c', 'presence "q";', put(presence='true')),
    ('c', 'config false;', put(config=False)),
    ('c/x', 'default 1;', put(default='1')),
    ('c/x', 'config false;', put(config=False)),
    ('pc', 'presence "other";', put()),
    ('pc/x', 'mandatory true;', put(mandatory='true')),
    ('ll', 'default a;', put(default='a')),
    ('ll', 'min-elements 1;', put()),
    ('li', 'max-elements 3;', put()),
    ('li/x', 'default 2;', put(default='2')),
    ('ch', 'default c1;', put(default='c1')),
    ('ch', 'mandatory true;', put(mandatory='true')),
    ('ch/c1/c1l', 'default v;', put(default='v')),
    ('ax', 'mandatory true;', put(mandatory='true')),
    ('ax', 'if-feature fb;', put(if_feature='fb')),
]


def drop(e):
    e.kind = None


DEVIATE = [(p, 'not-supported;', drop) for p in
           ('p', 'd', 'm', 'c', 'c/x', 'pc', 'll', 'li', 'li/x', 'ch',
            'ch/c1', 'ch/c1/c1l', 'ax')] + [
    ('p', 'add { default "x y"; }', put(default='x y')),
    ('p', 'add { mandatory true; }', put(mandatory='true')),
    ('p', 'replace { config false; }', put(config=False)),
    ('p', 'add { units u; }', put()),
    ('p', 'replace { type int8; }', put(datatype='int8')),
    ('p', 'replace { type ty:en; }', put(datatype='ty:en',
                                         values=('p', 'q'))),
    ('p', 'replace { type ty:dflt; }', put(datatype='ty:dflt', default='5')),
    ('d', 'replace { default 4; }', put(default='4')),
    ('d', 'delete { default 3; }', put(default=None)),
    ('d', 'replace { config false; }', put(config=False)),
    ('m', 'replace { mandatory false; }', put(mandatory=None)),
    ('td', 'add { default 6; }', put(default='6')),
    ('td', 'add { mandatory true; }', put(mandatory='true', default=None)),
    ('c', 'replace { config false; }', put(config=False)),
    ('pc/x', 'add { default 1; }', put(default='1')),
    ('ll', 'add { min-elements 1; }', put()),
    ('li/x', 'add { default 2; }', put(default='2')),
    ('ch', 'add { mandatory true; }', put(mandatory='true')),
    ('ch', 'add { default c2; }', put(default='c2')),
    ('dch', 'delete { default d1; }', put(default=None)),
]


def prune(es):
    out = []
    for e in es:
        if e.kind is not None:
            e.kids = prune(e.kids)
            out.append(e)
    return out


def compatible(sel):
    """Statements of one module that are valid together."""
    paths = [s[0] for s in sel]
    if len(set(paths)) != len(paths):
        # several statements for one node
        words = [s[1].replace('add { ', '').replace('replace { ', '').split()[0]
                 for s in sel]
        if len(set(words)) != len(words) or \
           {'default', 'mandatory'} <= set(words) or 'delete' in words or \
           'not-supported;' in words or 'type' in words:
            return False
    for a, b in itertools.permutations(sel, 2):
        if b[0].startswith(a[0] + '/') and a[2] is drop:
            return False
        # the default case must exist, and is not of a mandatory choice
        if a[0] == 'ch' and 'default' in a[1] and b[2] is drop and \
           b[0].startswith('ch/'):
            return False
        if a[0] == 'ch' and 'default c1' in a[1] and b[0] == 'ch/c1/c1l':
            continue
    return True


def build(kind, where, sel):
    env = Env()
    es = nodes()
    if kind == 'refine':
        env.files['b'].append('grouping g {{ {} }}'.format(BODY))
        uses = 'uses b:g {{ {} }}'.format(' '.join(
            'refine {} {{ {} }}'.format(q, ' '.join(
                s for p, s, _ in sel if p == q))
            for q in dict.fromkeys(p for p, _, _ in sel)))
    else:
        uses = BODY
        base = {'top': '/a:top', 'augment': '/a:top', 'rpc': '/a:r/a:input'}[
            where]
        pre = 'c' if where == 'augment' else 'a'
        for p, s, _ in sel:
            env.files['e'].append('deviation {}/{} {{ deviate {} }}'.format(
                base, '/'.join(pre + ':' + x for x in p.split('/')), s))
    for p, _, f in sel:
        f(find(es, p))
    es = prune(es)
    if where == 'top':
        env.files['a'].append('container top {{ {} }}'.format(uses))
        roots = [E('container', 'top', es)]
    elif where == 'augment':
        env.files['a'].append('container top;')
        env.files['c'].append('augment /a:top {{ {} }}'.format(uses))
        roots = [E('container', 'top', home(es, 'c'))]
    else:
        env.files['a'].append('rpc r {{ input {{ {} }} }}'.format(uses))
        roots = [E('rpc', 'r', [E('input', 'input', es),
                                E('output', 'output')])]
    return env.text(), resolve(roots, 'a', True, None)


def cases(depth):
    out = []
    for kind, table in (('refine', REFINE), ('deviate', DEVIATE)):
        for where in ('top', 'augment', 'rpc'):
            for d in range(1, depth + 1):
                for idx in itertools.combinations(range(len(table)), d):
                    if compatible([table[i] for i in idx]):
                        out.append((kind, where, idx))
    return out


def run_cases(cs):
    core.import_ncdiff()
    st = Stats()
    for kind, where, idx in cs:
        table = REFINE if kind == 'refine' else DEVIATE
        sel = [table[i] for i in idx]
        files, exp = build(kind, where, sel)
        st.states += 1
        st.transitions += count(exp)
        st.traces += count(exp)
        out = problems(files, exp)
        if out:
            st.violation('{}|{}|{}'.format(kind, where, ' '.join(
                s[0] + ' ' + s[1] for s in sel)),
                '{} at {}: {}\n{}'.format(kind, where, [
                    s[:2] for s in sel], '\n'.join(out[:6])),
                {'files': files, 'problems': out[:50]})
    return st


def check(run):
    cs = cases(2)
    if not run.thorough:
        cs = [c for c in cs if len(c[2]) == 1 or c[1] == 'top']
    for s in pmap(run_cases, chunks(cs, 20)):
        run.merge(s)
    run.extra['refine_and_deviate_cases'] = len(cs)
    run.assumptions.append('refine and deviation statements: one or two at a '
                           'time')
