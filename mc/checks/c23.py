"""C23  A compiled model is the schema that its YANG modules define: every
node, in its namespace, of its kind, with its access, keys, defaults, types
and conditions, wherever its definition is written."""
import itertools
import os
import re
import shutil

import core
from core import Stats, pmap, chunks

URN = {'a': 'urn:a', 'c': 'urn:c', 'e': 'urn:e'}
REV = ' revision 2020-01-01;'


class E(object):
    """An expected schema node."""

    def __init__(self, kind, name, kids=(), config=None, **attrs):
        self.kind = kind
        self.name = name
        self.kids = list(kids)
        self.config = config
        self.attrs = attrs
        self.home = None

    def copy(self):
        e = E(self.kind, self.name, [k.copy() for k in self.kids],
              self.config, **self.attrs)
        e.home = self.home
        return e


# ---------------------------------------------------------------- definitions
# module ty has the types; they are used as ty:x in every module
TY = '''module m-ty { yang-version 1.1; namespace "urn:ty"; prefix ty;
 revision 2020-01-01;
 typedef plain { type int8; }
 typedef dflt { type int8 { range "1..9"; } default 5; }
 typedef dflt2 { type dflt; }
 typedef dflt3 { type dflt2; default 6; }
 typedef en { type enumeration { enum p; enum q; } }
 typedef en2 { type en; }
 typedef bo { type boolean; }
 identity base0; identity d1 { base base0; } identity d2 { base d1; }
 identity other; identity d3 { base other; base d1; }
 typedef idt { type identityref { base base0; } }
}
'''
IDS = 'ty:d1 ty:d2 ty:d3'.split()
# (statement, datatype, values, default of the type)
TYPES = [
    ('string', None, (), None),
    ('string { length "1..9"; }', 'string', (), None),
    ('int8', None, (), None),
    ('boolean', None, ('true', 'false'), None),
    ('empty', None, (), None),
    ('binary', None, (), None),
    ('bits { bit u; bit v; }', 'bits', (), None),
    ('decimal64 { fraction-digits 2; }', 'decimal64', (), None),
    ('enumeration { enum x; enum y; }', 'enumeration', ('x', 'y'), None),
    ('union { type int8; type enumeration { enum x; } type ty:en; }', 'union',
     ('x', 'p', 'q'), None),
    ('instance-identifier', None, (), None),
    ('identityref { base ty:base0; }', 'identityref:ty:base0', IDS, None),
    ('identityref { base ty:other; }', 'identityref:ty:other', ['ty:d3'],
     None),
    ('leafref { path "../n0"; }', '-> ../n0', (), None),
    ('ty:plain', None, (), None),
    ('ty:dflt', None, (), '5'),
    ('ty:dflt2', None, (), '5'),
    ('ty:dflt3', None, (), '6'),
    ('ty:en', None, ('p', 'q'), None),
    ('ty:en2', None, ('p', 'q'), None),
    ('ty:bo', None, ('true', 'false'), None),
    ('ty:idt', None, IDS, None),
]
DEFAULTS = {'string': 'dd', 'int8': '3', 'boolean': 'true', 'ty:dflt': '7',
            'ty:dflt3': '8', 'ty:en2': 'q', 'ty:idt': 'ty:d2'}


def stmt(kw, name, subs):
    return '{} {} {{ {} }}'.format(kw, name, ' '.join(subs)) if subs else \
        '{} {};'.format(kw, name)


def kinds(state):
    """[(statement, expected)] of sibling nodes; with state, these are
    definitions that need config false (or an rpc or a notification)."""
    out = []
    n = itertools.count()

    def name():
        return 'n{}'.format(next(n))

    # modifiers that work with every kind
    MODS = [((), {}, None), (('config false;',), {}, False),
            (('status deprecated;',), {'status': 'deprecated'}, None),
            (('status obsolete;', 'if-feature fa;'),
             {'status': 'obsolete', 'if-feature': 'fa'}, None),
            (('config true;', 'status current;', 'if-feature fb;'),
             {'if-feature': 'fb'}, True)]

    def add(kw, subs=(), kids=(), mods=MODS[:1], **attrs):
        for ms, ma, config in mods:
            if state and config is True:
                continue
            nm = name()
            kk = [k() for k in kids]
            out.append((stmt(kw, nm, list(subs) + list(ms) +
                             [k[0] for k in kk]),
                        E(kw, nm, [k[1] for k in kk], config,
                          **dict(attrs, **ma))))

    def lf(nm, **attrs):
        return lambda: ('leaf {} {{ type string; }}'.format(nm),
                        E('leaf', nm, datatype='string', **attrs))

    for i, (t, dt, vals, td) in enumerate(TYPES):
        a = {'datatype': dt or t}
        if vals:
            a['values'] = tuple(vals)
        ts = 'type {}'.format(t) + ('' if t.endswith('}') else ';')
        d = {} if td is None else {'default': td}
        add('leaf', [ts], mods=MODS if i in (0, 15) else MODS[:1], **a, **d)
        add('leaf-list', [ts], mods=MODS if i == 15 else MODS[:1], **a, **d)
        add('leaf', [ts, 'mandatory true;'], mandatory='true', **a)
        if t in DEFAULTS:
            v = DEFAULTS[t]
            add('leaf', ['default "{}";'.format(v), ts, 'mandatory false;'],
                mods=MODS, default=v, **a)
            add('leaf-list', [ts, 'default {};'.format(v)], default=v, **a)
        if td is not None:
            add('leaf-list', [ts, 'min-elements 1;'], **a)
            add('leaf-list', [ts, 'min-elements 0;'], **a, **d)
    s = 'type string;'
    add('leaf-list', [s, 'ordered-by user;'], datatype='string',
        **{'ordered-by': 'user'})
    add('leaf-list', [s, 'ordered-by system;'], datatype='string')
    add('leaf-list', ['default v1;', s, 'default v2;'], datatype='string',
        default='v1,v2')
    for kw in ('anyxml', 'anydata'):
        add(kw, mods=MODS)
        add(kw, ['mandatory true;'], mandatory='true')
    add('container', mods=MODS)
    add('container', ['presence "p";'], mods=MODS, presence='true')
    add('container', [], [lf('x'), lf('y')], mods=MODS)
    key = {'is_key': 'true', 'mandatory': 'true'}
    add('list', ['key k;'], [lf('k', **key), lf('x')], mods=MODS, key='k')
    add('list', ['key "k1 k2";'], [lf('k2', **key), lf('x'),
                                   lf('k1', **key)], key='k1 k2')
    add('list', ['key "k1\\n      k2";'], [lf('k2', **key),
                                           lf('k1', **key)], key='k1 k2')
    add('list', ['key "k1 \\t  k2";'], [lf('k2', **key),
                                          lf('k1', **key)], key='k1 k2')
    add('list', ['key k;', 'ordered-by user;'], [lf('k', **key)], key='k',
        **{'ordered-by': 'user'})
    add('list', ['key k;', 'ordered-by system;', 'unique x;'],
        [lf('k', **key), lf('x')], key='k')
    add('list', ['key k;'], [lambda: (
        'leaf k { type ty:dflt; }',
        E('leaf', 'k', datatype='ty:dflt', **key))], key='k')

    def case(nm, *kids):
        def f():
            kk = [k() for k in kids]
            return ('case {} {{ {} }}'.format(nm, ' '.join(
                k[0] for k in kk)), E('case', nm, [k[1] for k in kk]))
        return f

    def short(k):
        def f():
            t, e = k()
            return t, E('case', e.name, [e])
        return f
    i = len(out)
    add('choice', [], [case('s1', lf('q%da' % i), lf('q%db' % i)),
                       short(lf('q%dc' % i))])
    i = len(out)
    add('choice', ['default s2;'], [case('s1', lf('q%da' % i)),
                                    case('s2', lf('q%db' % i))],
        default='s2')
    i = len(out)
    add('choice', ['mandatory true;', 'if-feature fa;'],
        [short(lf('q%da' % i))], mandatory='true', **{'if-feature': 'fa'})
    i = len(out)
    add('choice', ['status deprecated;', 'config false;'],
        [case('s1', lf('q%da' % i))], status='deprecated')
    out[-1][1].config = False
    if state:
        add('list', [], [lf('x')])
        add('list', ['ordered-by user;'], [lf('x')])
        # order of entries of state data is not up to the user
        out.pop()
    return out


# ---------------------------------------------------------------- contexts
class Env(object):
    """The files of one case."""

    def __init__(self):
        self.n = itertools.count()
        self.files = {f: [] for f in ('a', 'as', 'b', 'c', 'cs', 'e')}
        self.lean = False

    def name(self, p):
        return '{}{}'.format(p, next(self.n))

    def text(self):
        imp = {'a': ['b', 'ty'], 'as': ['b', 'ty'], 'b': ['ty'],
               'c': ['a', 'b', 'ty'], 'cs': ['a', 'b', 'ty'],
               'e': ['a', 'c', 'b', 'ty']}
        out = {'m-ty': TY}
        for f, stmts in self.files.items():
            if f in ('as', 'cs'):
                head = 'submodule m-{} {{ yang-version 1.1; belongs-to m-{} ' \
                    '{{ prefix {}; }}'.format(f, f[0], f[0])
            else:
                head = 'module m-{0} {{ yang-version 1.1; namespace ' \
                    '"urn:{0}";' \
                    ' prefix {0};'.format(f)
            head += ''.join(' import m-{0} {{ prefix {0}; }}'.format(i)
                            for i in imp[f] if not self.lean or any(
                                re.search(r'\b{}:'.format(i), x)
                                for x in stmts))
            if f in ('a', 'c'):
                head += ' include m-{}s;'.format(f)
            # a module has the features of its submodules
            feats = '' if f in ('a', 'c') else \
                ' feature fa; feature fb; feature fc;'
            out['m-' + f] = '\n'.join([head, REV, feats] + stmts + ['}', ''])
        return out


# a body is a function of the file it is written in, to (text, [E])
def c_container(env, body):
    def f(file):
        t, e = body(file)
        n = env.name('w')
        return 'container {} {{ {} }}'.format(n, t), [E('container', n, e)]
    return f


def c_state(env, body):
    def f(file):
        t, e = body(file)
        n = env.name('w')
        return 'container {} {{ config false; {} }}'.format(n, t), [
            E('container', n, e, False)]
    return f


def c_list(env, body):
    def f(file):
        t, e = body(file)
        n = env.name('w')
        return 'list {} {{ {} key kk; leaf kk {{ type string; }} }}'.format(
            n, t), [E('list', n, e + [
                E('leaf', 'kk', datatype='string', is_key='true',
                  mandatory='true')], key='kk')]
    return f


def c_case(env, body):
    def f(file):
        t, e = body(file)
        n = env.name('w')
        return 'choice {0} {{ case {0}c {{ {1} }} }}'.format(n, t), [
            E('choice', n, [E('case', n + 'c', e)])]
    return f


def c_short(env, body):
    def f(file):
        t, e = body(file)
        if any(w in t for w in ('uses ',)):
            # uses is not allowed as a short case
            n = env.name('v')
            t, e = 'container {} {{ {} }}'.format(n, t), [
                E('container', n, e)]
        n = env.name('w')
        return 'choice {} {{ {} }}'.format(n, t), [
            E('choice', n, [E('case', k.name, [k]) for k in e])]
    return f


def c_grouping(env, body):
    def f(file):
        t, e = body(file)
        n = env.name('g')
        env.files[file].append('grouping {} {{ {} }}'.format(n, t))
        return 'uses {};'.format(n), e
    return f


def c_inner_grouping(env, body):
    """A grouping within a container, used twice."""
    def f(file):
        t, e = body(file)
        n = env.name('w')
        return 'container {0} {{ grouping g{0} {{ {1} }} container x {{ uses ' \
            'g{0}; }} container y {{ uses g{0}; }} }}'.format(n, t), [
                E('container', n, [
                    E('container', 'x', e),
                    E('container', 'y', [k.copy() for k in e])])]
    return f


def c_imported(env, body):
    def f(file):
        t, e = body('b')
        n = env.name('g')
        env.files['b'].append('grouping {} {{ {} }}'.format(n, t))
        return 'uses b:{};'.format(n), e
    return f


def feature(e, f):
    for k in e:
        fs = k.attrs.get('if-feature', '').split()
        if f not in fs:
            k.attrs['if-feature'] = ' '.join(fs + [f])
    return e


def c_uses_augment(env, body):
    def f(file):
        t, e = body(file)
        n = env.name('g')
        env.files['b'].append(
            'grouping {} {{ container r{} {{ leaf gl {{ type string; }} }} }}'
            .format(n, n))
        return 'uses b:{0} {{ augment r{0} {{ {1} }} }}'.format(n, t), [
            E('container', 'r' + n, [E('leaf', 'gl', datatype='string')] + e)]
    return f


def c_uses_feature(env, body):
    def f(file):
        t, e = body(file)
        n = env.name('g')
        env.files[file].append('grouping {} {{ {} }}'.format(n, t))
        return 'uses {} {{ if-feature fc; }}'.format(n), feature(e, 'fc')
    return f


INNER = {'uses-feature': c_uses_feature, 'container': c_container, 'state': c_state, 'list': c_list,
         'case': c_case, 'short': c_short, 'grouping': c_grouping,
         'inner-grouping': c_inner_grouping, 'imported': c_imported,
         'uses-augment': c_uses_augment}


# placements: add the body to the files; return what module a then has
def home(es, h):
    for e in es:
        e.home = h
    return es


def p_top(env, body):
    t, e = body('a')
    env.files['a'].append(t)
    return e


def p_sub(env, body):
    t, e = body('as')
    env.files['as'].append(t)
    return e


def p_sub_grouping(env, body):
    """A grouping of the submodule used in the module."""
    t, e = body('as')
    env.files['as'].append('grouping sg {{ {} }}'.format(t))
    env.files['a'].append('container top { uses sg; }')
    return [E('container', 'top', e)]


def p_augment(target, file, wrap=None, feat=None):
    """An augment of /a:top by module file."""
    def f(env, body):
        t, e = body(file)
        if target != '/a:top' and target != '/a:top/a:li':
            raise core.CheckError(target)
        env.files['a'].append('container top { leaf first { type string; } '
                              'list li { key k; leaf k { type string; } } }')
        iff = 'if-feature {}; '.format(feat) if feat else ''
        env.files[file].append('augment {} {{ {}{} }}'.format(target, iff, t))
        if feat:
            feature(e, feat)
        home(e, file[0])
        li = E('list', 'li', [E('leaf', 'k', datatype='string', is_key='true',
                                mandatory='true')], key='k')
        top = E('container', 'top', [E('leaf', 'first', datatype='string'),
                                     li])
        (top if target == '/a:top' else li).kids += e
        return [top]
    return f


def p_augment_twice(env, body):
    """Module e augments what module c has added."""
    t, e = body('e')
    env.files['a'].append('container top;')
    env.files['c'].append('augment /a:top { container mid { presence p; } }')
    env.files['e'].append('augment /a:top/c:mid {{ {} }}'.format(t))
    mid = home([E('container', 'mid', home(e, 'e'), presence='true')], 'c')
    return [E('container', 'top', mid)]


def p_augment_case(file):
    def f(env, body):
        t, e = body(file)
        env.files['a'].append('choice ch { leaf cl { type string; } }')
        env.files[file].append('augment /a:ch {{ case nc {{ {} }} }}'.format(
            t))
        nc = home([E('case', 'nc', home(e, file[0]))], file[0])
        return [E('choice', 'ch', [
            E('case', 'cl', [E('leaf', 'cl', datatype='string')])] + nc)]
    return f


def p_op(kw, part, file='a'):
    """In an rpc or action."""
    def f(env, body):
        t, e = body(file)
        empty = {'input': [], 'output': []}
        if file == 'a':
            text = '{} op {{ {} {{ {} }} }}'.format(kw, part, t)
        else:
            text = '{} op;'.format(kw)
            env.files[file].append('augment {}/a:op/a:{} {{ {} }}'.format(
                '/a:top' if kw == 'action' else '', part, t))
            home(e, file[0])
        empty[part] = e
        op = E(kw, 'op', [E(p, p, empty[p]) for p in ('input', 'output')])
        if kw == 'action':
            env.files['a'].append('container top {{ {} }}'.format(text))
            return [E('container', 'top', [op])]
        env.files['a'].append(text)
        return [op]
    return f


def p_action_in(wrap):
    """An action in a list, a grouping or added by another module."""
    def f(env, body):
        if wrap == 'augment':
            t, e = body('c')
            env.files['a'].append('container top;')
            env.files['c'].append(
                'augment /a:top {{ action op {{ input {{ {} }} }} }}'.format(
                    t))
            ops = [E('action', 'op', home([
                E('input', 'input', home(e, 'c')), E('output', 'output')],
                'c'))]
            return [E('container', 'top', home(ops, 'c'))]
        t, e = body('a')
        op = E('action', 'op', [E('input', 'input'),
                                E('output', 'output', e)])
        text = 'action op {{ output {{ {} }} }}'.format(t)
        if wrap == 'list':
            env.files['a'].append('list top {{ key k; leaf k {{ type string; }}'
                                  ' {} }}'.format(text))
            return [E('list', 'top', [
                E('leaf', 'k', datatype='string', is_key='true',
                  mandatory='true'), op], key='k')]
        env.files['a'].append('grouping ag {{ {} }} container top {{ uses ag; '
                              '}}'.format(text))
        return [E('container', 'top', [op])]
    return f


def p_notification(where):
    def f(env, body):
        file = 'c' if where == 'augmented' else 'a'
        t, e = body(file)
        if where == 'augmented':
            env.files['a'].append('notification no;')
            env.files['c'].append('augment /a:no {{ {} }}'.format(t))
            home(e, 'c')
            return [E('notification', 'no', e)]
        text = 'notification no {{ {} }}'.format(t)
        no = E('notification', 'no', e)
        if where == 'nested':
            env.files['a'].append('container top {{ {} }}'.format(text))
            return [E('container', 'top', [no])]
        env.files['a'].append(text)
        return [no]
    return f


def p_nested_notification_augment(env, body):
    t, e = body('c')
    env.files['a'].append('container top;')
    env.files['c'].append('augment /a:top {{ notification no {{ {} }} }}'
                          .format(t))
    no = home([E('notification', 'no', home(e, 'c'))], 'c')
    return [E('container', 'top', no)]


def lean(place):
    """Modules import nothing that they do not use."""
    def f(env, body):
        env.lean = True
        return place(env, body)
    return f


PLACES = {
    'top': p_top, 'submodule': p_sub, 'submodule grouping': p_sub_grouping,
    'augment by itself': p_augment('/a:top', 'a'),
    'augment': p_augment('/a:top', 'c'),
    'augment of a list': p_augment('/a:top/a:li', 'c'),
    'augment by a submodule': p_augment('/a:top', 'cs'),
    'lean augment': lean(p_augment('/a:top', 'c')),
    'lean augment by a submodule': lean(p_augment('/a:top', 'cs')),
    'augment with a feature': p_augment('/a:top', 'c', feat='fc'),
    'augment of an augment': p_augment_twice,
    'augment of a choice': p_augment_case('c'),
    'augment of a choice by itself': p_augment_case('a'),
    'rpc input': p_op('rpc', 'input'), 'rpc output': p_op('rpc', 'output'),
    'augmented rpc input': p_op('rpc', 'input', 'c'),
    'augmented rpc output': p_op('rpc', 'output', 'c'),
    'action input': p_op('action', 'input'),
    'action output': p_op('action', 'output'),
    'augmented action input': p_op('action', 'input', 'c'),
    'action output in a list': p_action_in('list'),
    'action output in a grouping': p_action_in('grouping'),
    'action input by another module': p_action_in('augment'),
    'notification': p_notification('top'),
    'nested notification': p_notification('nested'),
    'augmented notification': p_notification('augmented'),
    'nested notification by another module': p_nested_notification_augment,
}
ORDER = {'rpc': 1, 'notification': 2}
# where a list needs no key
STATE_PLACES = [p for p in PLACES if re.search(
    'rpc|action|notification', p)]


def resolve(es, mod, config, mode):
    """Expected nodes -> (tag, attributes, children)."""
    out = []
    for e in es:
        m = e.home or mod
        cfg = config if e.config is None else config and e.config
        md = {'rpc': 'write', 'action': 'write', 'input': 'write',
              'output': 'read-only',
              'notification': 'read-only'}.get(e.kind, mode)
        a = dict(e.attrs)
        a['type'] = e.kind
        a['access'] = md or ('read-write' if cfg else 'read-only')
        out.append(('{urn:%s}%s' % (m, e.name), a,
                    resolve(e.kids, m, cfg,
                            md if e.kind not in ('rpc', 'action') else md)))
    return out


# ---------------------------------------------------------------- the check
SEEN = ('type', 'access', 'default', 'key', 'is_key', 'mandatory', 'presence',
        'ordered-by', 'status', 'if-feature', 'datatype', 'values')


def attributes(node):
    out = {k: node.get(k) for k in SEEN if node.get(k) is not None}
    if out.get('type') == 'choice':
        out.pop('values', None)
    if 'values' in out:
        out['values'] = tuple(sorted(out['values'].split('|')))
    if 'if-feature' in out:
        out['if-feature'] = features(out['if-feature'])
    return out


def features(text):
    return ' '.join(sorted(set(text.split())))


def compare(path, exp, nodes, out):
    nodes = list(nodes)
    if exp and exp[0][1]['type'] in ('input', 'output'):
        # in either order; str() follows the tree
        order = [n.tag for n in nodes]
        exp.sort(key=lambda e: order.index(e[0]) if e[0] in order else 9)
    if [n.tag for n in nodes] != [e[0] for e in exp]:
        if sorted(n.tag for n in nodes) == sorted(e[0] for e in exp):
            out.append('{}: order of nodes is {}'.format(
                path, [n.tag for n in nodes]))
        else:
            have, want = [n.tag for n in nodes], [e[0] for e in exp]
            out.append('{}: missing nodes {}, unexpected nodes {}'.format(
                path, [w for w in want if w not in have],
                [h for h in have if h not in want] or
                [h for h in have if have.count(h) > want.count(h)]))
        return
    for (tag, attrs, kids), n in zip(exp, nodes):
        a = attributes(n)
        want = dict(attrs)
        if want['type'] == 'case':
            # what a short case has of its node is not specified
            a.pop('status', None)
        if 'values' in want:
            want['values'] = tuple(sorted(want['values']))
        if 'if-feature' in want:
            want['if-feature'] = features(want['if-feature'])
        if a != want:
            diff = ['{}={!r} instead of {!r}'.format(k, a.get(k), want.get(k))
                    for k in sorted(set(a) | set(want))
                    if a.get(k) != want.get(k)]
            out.append('{}/{}: {}'.format(path, tag, ', '.join(diff)))
        compare(path + '/' + tag.split('}')[1], kids, n, out)


LINE = re.compile(r'^(?P<ind>[ |]*)\+--(?P<flag>-[xnw]| ?|r[wo]|:)'
                  r'(?P<rest>.*)$')


def count(exp):
    return sum(1 + count(k) for _, _, k in exp)


def flatten(exp, prefixes, own, depth=0):
    for tag, a, kids in exp:
        ns, name = tag[1:].split('}')
        p = prefixes[ns]
        if p != own:
            name = p + ':' + name
        yield depth, name, a
        yield from flatten(kids, prefixes, own, depth + 1)


def rendering(model, exp, out):
    """str(model): one line per node, in order, with what it is."""
    pre = {'urn:' + m: m for m in ('a', 'b', 'c', 'e', 'ty')}
    text = str(model)
    lines = [l for l in text.split('\n')[1:]
             if l.strip() and l.strip() not in ('rpcs:', 'notifications:')]
    groups = [[e for e in exp if e[1]['type'] not in ORDER],
              [e for e in exp if e[1]['type'] == 'rpc'],
              [e for e in exp if e[1]['type'] == 'notification']]
    want = [w for g in groups for w in flatten(g, pre, 'a')]
    if len(lines) != len(want):
        out.append('str(model) has {} lines for {} nodes'.format(
            len(lines), len(want)))
        return
    for l, (depth, name, a) in zip(lines, want):
        head, _, tail = l.partition('+--')
        flag = {'write': '-w', 'read-write': 'rw', 'read-only': 'ro'}[
            a['access']]
        if a['type'] in ('rpc', 'action'):
            flag = '-x'
        if a['type'] == 'notification':
            flag = '-n'
        t = a['type']
        opt = '' if a.get('mandatory') == 'true' else '?'
        if t == 'case':
            w = ':({})'.format(name)
        elif t == 'choice':
            w = '{} ({}){}'.format(flag, name, opt)
        elif t in ('leaf', 'anyxml', 'anydata'):
            w = '{} {}{}'.format(flag, name, opt)
        elif t == 'leaf-list':
            w = '{} {}*'.format(flag, name)
        elif t == 'list':
            w = '{} {}*'.format(flag, name) + (
                ' [{}]'.format(a['key']) if a.get('key') else '')
        else:
            w = '{} {}'.format(flag, name)
        words = [w]
        if t in ('anyxml', 'anydata'):
            words.append('<{}>'.format(t))
        elif a.get('datatype'):
            words.append(a['datatype'])
        if a.get('if-feature'):
            words.append('{' + features(a['if-feature']) + '}?')
            tail = re.sub(r'\{(.*)\}\?$', lambda x: '{%s}?' % features(
                x.group(1)), tail)
        if len(head) != 4 + 3 * depth or \
           ' '.join(tail.split()) != ' '.join(' '.join(words).split()):
            out.append('line {!r} of str(model) at level {} should be about '
                       '{!r}'.format(l, depth, ' '.join(words)))
            return


def build(place, inner):
    """The files of a case and the expected roots of module a."""
    env = Env()
    ks = kinds(place in STATE_PLACES or 'state' in inner)

    def body(file):
        return '\n'.join(t for t, _ in ks), [e.copy() for _, e in ks]
    b = body
    for c in reversed(inner):
        b = INNER[c](env, b)
    roots = PLACES[place](env, b)
    roots.sort(key=lambda e: ORDER.get(e.kind, 0))
    return env.text(), resolve(roots, 'a', True, None)


def compile_files(files, module):
    from ncdiff import ModelCompiler
    d = core.scratch('mc-c23-')
    try:
        for n, t in files.items():
            with open(os.path.join(d, n + '.yang'), 'w') as f:
                f.write(t)
        c = ModelCompiler(d)
        m = c.compile(module)
        return m, [e for e in c.pyang_errors if 'UNUSED' not in e[1]]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def align(exp, nodes):
    """Put expected nodes in the order of the nodes."""
    nodes = list(nodes)
    order = [n.tag for n in nodes]
    exp.sort(key=lambda e: order.index(e[0]) if e[0] in order
             else len(order))
    for e in exp:
        if e[0] in order:
            align(e[2], nodes[order.index(e[0])])


def problems(files, exp, ordered=True):
    try:
        model, errors = compile_files(files, 'm-a')
    except Exception as e:
        return ['compile: {}: {}'.format(type(e).__name__, e)]
    out = []
    if (model.name, model.prefix, model.url) != ('m-a', 'a', 'urn:a'):
        out.append('name, prefix, url are {}, {}, {}'.format(
            model.name, model.prefix, model.url))
    if not ordered:
        align(exp, model.tree)
    compare('', exp, model.tree, out)

    def used(es):
        for t, _, k in es:
            yield t[1:].split('}')[0]
            yield from used(k)
    for ns in sorted(set(used(exp))):
        if model.urls.get(ns) != ns[4:] or \
           model.prefixes.get(ns[4:]) != ns:
            out.append('prefix of {} is {}'.format(ns, model.urls.get(ns)))

    def roots(es):
        for t, a, k in es:
            if a['type'] in ('choice', 'case'):
                yield from roots(k)
            else:
                yield t
    miss = [r for r in roots(exp) if r not in model.roots]
    if miss:
        out.append('roots lack {}'.format(miss))
    if not out:
        rendering(model, exp, out)
    if out and errors:
        out.append('pyang: {}'.format([(str(e[0]), e[1]) for e in errors[:5]]))
    return out


def run_cases(cases):
    core.import_ncdiff()
    st = Stats()
    for place, inner in cases:
        files, exp = build(place, inner)
        st.states += 1
        st.transitions += count(exp)
        st.traces += count(exp)
        out = problems(files, exp)
        if out:
            st.violation('{}|{}'.format(place, '/'.join(inner)),
                         'nodes at {} in {}:\n{}'.format(
                             place, ' in '.join(reversed(inner)) or 'itself',
                             '\n'.join(out[:6])),
                         {'files': files, 'problems': out[:50]})
    if cases:
        st.sample({'place': cases[0][0], 'inner': cases[0][1]})
    return st


def cases(thorough):
    out = []
    for place in PLACES:
        for d in range(3):
            out += [(place, i) for i in itertools.product(INNER, repeat=d)]
    if thorough:
        out += [(p, i) for p in ('top', 'augment', 'submodule', 'action input',
                                 'augment by a submodule')
                for i in itertools.product(INNER, repeat=3)]
    return out


def check(run):
    core.import_ncdiff()
    cs = cases(run.thorough)
    for s in pmap(run_cases, chunks(cs, 6)):
        run.merge(s)
    from checks import c23b, c23c
    c23b.check(run)
    c23c.check(run)
    run.extra['places'] = len(PLACES)
    run.extra['wrappers'] = len(INNER)
    run.extra['definitions_per_place'] = len(kinds(True))
    run.assumptions += [
        'definitions: the kinds of nodes, types and properties in kinds(); '
        'wrappers to depth {}'.format(
            '2 (3 at five places)' if run.thorough else 2),
        'pyang parses YANG correctly']
