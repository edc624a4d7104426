"""C24  Configs of two devices are combined exactly when the devices agree on
every model the configs use, and then as if they came from one device."""
import itertools
import os

import core
import netsim
from core import Stats, pmap, chunks
from checks.c21 import mod
from lxml import etree

NC = netsim.NC
U = {'m1': 'urn:m1', 'm2': 'urn:m2', 'm3': 'urn:m3'}


def m1(x='default "1";', y='', key='k', extra='', deep='', prefix='a',
       ns='urn:m1', lead='', kind='leaf x'):
    return mod('m1', prefix, ns, '''
 {}
 container top {{
  {} {{ type string; {} }}
  leaf-list y {{ type string; {} }}
  list l {{ key "{}"; leaf k {{ type string; }} leaf j {{ type string; }}
   container c {{ leaf v {{ type string; }} {} }} }}
  {}
 }}'''.format(lead, kind, x, y, key, deep, extra))


# definition -> text; the text is what differs, the first item of the value
# names the definition: equal names are equal definitions
M1 = {
    'base': ('m1', m1()),
    # written differently, the same definition
    'doc': ('m1', m1(x='default "1"; description "other";',
                     lead='description "other"; typedef unused { type int8; }')),
    'grp': ('m1', m1(lead='grouping g { leaf z9 { type string; } }')),
    'default': ('m1 default', m1(x='default "2";')),
    'nodef': ('m1 nodef', m1(x='')),
    'user': ('m1 user', m1(y='ordered-by user;')),
    'key': ('m1 key', m1(key='k j')),
    'extra': ('m1 extra', m1(extra='leaf more { type string; }')),
    'deep': ('m1 deep', m1(deep='leaf w { type string; }')),
    'deepmand': ('m1 deepmand', m1(deep='leaf w { type string; '
                                   'mandatory true; }')),
    'status': ('m1 status', m1(x='default "1"; status deprecated;')),
    'kind': ('m1 kind', m1(kind='leaf-list x')),
    'rpc': ('m1 rpc', m1(lead='rpc r { input { leaf i { type string; } } }')),
    'notif': ('m1 notif', m1(lead='notification nt;')),
    'prefix': ('m1 prefix', m1(prefix='aa')),
    'ns': ('m1 ns', m1(ns='urn:other')),
}
M2 = {
    'none': (None, None),
    'base': ('m2', mod('m2', 'b', 'urn:m2',
                       'augment /q:top { leaf z { type string; } } '
                       'container two { leaf x { type string; } }',
                       [('m1', 'q')])),
    # the data of m2 itself is the same, m1 is not augmented
    'plain': ('m2', mod('m2', 'b', 'urn:m2',
                        'container two { leaf x { type string; } }')),
    'type': ('m2 type', mod('m2', 'b', 'urn:m2',
                            'container two { leaf x { type int8; } }')),
}
M3 = {
    'none': (None, None),
    'base': ('m3', mod('m3', 'c', 'urn:m3', 'leaf-list ll { type string; }')),
    'type': ('m3 type', mod('m3', 'c', 'urn:m3',
                            'leaf-list ll { type int32; }')),
    'prefix': ('m3 prefix', mod('m3', 'cc', 'urn:m3',
                                'leaf-list ll { type string; }')),
    'ns': ('m3 ns', mod('m3', 'c', 'urn:m33',
                        'leaf-list ll { type string; }')),
}


def augments(b):
    return b == 'base'


def definitions(v):
    """model -> (definition, offered) of a device of this variant."""
    a, b, c = v
    out = {'m1': (M1[a][0], 'augmented' if augments(b) else '')}
    if b != 'none':
        out['m2'] = (M2[b][0],)
    if c != 'none':
        out['m3'] = (M3[c][0],)
    return out


# (name, models it needs, text)
DOCS = [
    ('empty', (), ''),
    ('m1', ('m1',), '<top xmlns="{m1}"><y>7</y><l><k>1</k><j>2</j></l></top>'),
    ('m1b', ('m1',), '<top xmlns="{m1}"><y>8</y><y>7</y>'
     '<l><k>1</k><j>2</j><c><v>3</v></c></l><l><k>3</k><j>2</j></l></top>'),
    ('m2', ('m2',), '<two xmlns="{m2}"><x>1</x></two>'),
    ('m3', ('m3',), '<ll xmlns="{m3}">1</ll><ll xmlns="{m3}">2</ll>'),
    ('all', ('m1', 'm2', 'm3'),
     '<ll xmlns="{m3}">2</ll><two xmlns="{m2}"><x>2</x></two>'
     '<top xmlns="{m1}"><l><k>3</k><j>2</j><c><v>3</v></c></l></top>'),
]


def uris(v):
    u = dict(U)
    if v[0] == 'ns':
        u['m1'] = 'urn:other'
    if v[2] == 'ns':
        u['m3'] = 'urn:m33'
    return u


def text(doc, v):
    return '<nc:config xmlns:nc="{}">{}</nc:config>'.format(
        NC, doc[2].format(**uris(v)))


DIRS = {}
DEVS = {}


def device(v, loaded, n):
    """The n-th device with this variant and these models loaded."""
    k = (v, loaded, n)
    if k not in DEVS:
        have = [m for m in ('m1', 'm2', 'm3') if m in definitions(v)]
        DEVS[k] = netsim.device(netsim.BASE + [
            '{}?module={}&revision=2020-01-01'.format(uris(v)[m], m)
            for m in have], netsim.ok, DIRS[v],
            [m for m in loaded if m in have])[0]
    return DEVS[k]


def c14n(e):
    return etree.tostring(e, method='c14n').decode()


def result(f):
    from ncdiff.errors import ModelMissing, ModelIncompatible
    try:
        r = f()
    except (ModelMissing, ModelIncompatible) as e:
        return 'refused'
    except Exception as e:
        return 'raised {!r}'.format(e)
    if hasattr(r, 'nc'):
        return 'delta ' + c14n(r.nc)
    if hasattr(r, 'ele'):
        return 'config ' + c14n(r.ele)
    return repr(r)


def operations(c1, c2):
    from ncdiff import ConfigDelta
    from ncdiff.config import ConfigCompatibility
    yield 'delta', lambda: ConfigDelta(config_src=c1, config_dst=c2)
    yield 'replace', lambda: ConfigDelta(config_src=c1, config_dst=c2,
                                         diff_type='replace')
    yield 'sub', lambda: c1 - c2
    yield 'add', lambda: c1 + c2
    yield 'add delta', lambda: c1 + ConfigDelta(
        config_src=type(c2)(c2.device), config_dst=c2)
    yield 'compatible', lambda: ConfigCompatibility(c1, c2).is_compatible
    yield 'models', lambda: ConfigCompatibility(c1, c2).models


COMPARE = ['__le__', '__lt__', '__ge__', '__gt__', '__eq__', '__ne__']


def agree(v1, l1, v2, l2, used, same):
    """Do the two devices agree on all of these models?"""
    d1, d2 = definitions(v1), definitions(v2)
    return all(m in d1 and m in d2 and m in l1 and m in l2 and
               d1[m] == d2[m] for m in used)


def one(st, v1, l1, v2, l2, same):
    from ncdiff import Config
    dev1 = device(v1, l1, 1)
    dev2 = dev1 if same else device(v2, l2, 2)
    st.states += 1
    have1 = set(l1) & set(definitions(v1))
    have2 = set(l2) & set(definitions(v2))
    for i, j in itertools.product(range(len(DOCS)), repeat=2):
        a, b = DOCS[i], DOCS[j]
        if not set(a[1]) <= have1 or not set(b[1]) <= have2:
            continue
        c1 = Config(dev1, text(a, v1))
        c2 = Config(dev2, text(b, v2))
        used = set(a[1]) | set(b[1])
        ok = agree(v1, have1, v2, have2, used, same)
        if ok:
            # the same on one device
            r1 = Config(dev1, text(a, v1))
            r2 = Config(dev1, text(b, v1))
            want = {n: result(f) for n, f in operations(r1, r2)}
        for name, f in operations(c1, c2):
            st.transitions += 1
            got = result(f)
            if name == 'models':
                exp = repr(sorted(used))
            elif not ok:
                exp = 'refused'
            elif name == 'compatible':
                exp = 'True'
            else:
                exp = want[name]
            if got != exp:
                key = '|'.join(map(str, (v1, l1, v2, l2, same, a[0], b[0],
                                         name)))
                st.violation(
                    key, '{} of {} on a device {} with {} loaded and {} on '
                    '{} device {} with {} loaded: {}, should be {}'.format(
                        name, a[0], v1, l1, b[0],
                        'the same' if same else 'a', v2, l2, got, exp),
                    {'case': [v1, l1, v2, l2, same]})
        if ok:
            for op in COMPARE:
                st.transitions += 1
                g = getattr(c1, op)(c2)
                w = getattr(r1, op)(r2)
                if g != w:
                    st.violation('|'.join(map(str, (
                        v1, l1, v2, l2, same, a[0], b[0], op))),
                        '{} {} {} across devices is {}, on one device {}'
                        .format(a[0], op, b[0], g, w),
                        {'case': [v1, l1, v2, l2, same]})
        st.traces += 1


def work(cases):
    st = Stats()
    for c in cases:
        one(st, *c)
    return st.dict()


ALL = ('m1', 'm2', 'm3')


def cases(thorough):
    out = []
    base = ('base', 'base', 'base')
    subsets = [s for n in range(4) for s in itertools.combinations(ALL, n)]
    variants = list(itertools.product(M1, M2, M3))
    # a device against any other one, any models loaded
    for v in variants:
        loads = subsets if thorough or v[0] in ('base', 'prefix', 'ns') or \
            v[1:] == ('base', 'base') else [ALL]
        for l in loads:
            out.append((base, ALL, v, l, False))
            out.append((v, l, base, ALL, False))
        out.append((v, ALL, v, ALL, False))
        out.append((v, ALL, v, ALL, True))
    # any two definitions of one model
    for a, b in itertools.product(M1, repeat=2):
        for c in M3 if thorough else ['base']:
            out.append(((a, 'base', 'base'), ALL, (b, 'base', c), ALL, False))
            out.append(((a, 'none', 'base'), ALL, (b, 'plain', c), ALL,
                        False))
    for a, b in itertools.product(itertools.product(M2, M3), repeat=2):
        out.append((('base',) + a, ALL, ('base',) + b, ALL, False))
    return list(dict.fromkeys(out))


def check(run):
    core.import_ncdiff()
    base = core.scratch('mc-c24-')
    try:
        for v in itertools.product(M1, M2, M3):
            d = DIRS[v] = os.path.join(base, '-'.join(v))
            os.makedirs(d)
            for m, t in zip(ALL, (M1[v[0]][1], M2[v[1]][1], M3[v[2]][1])):
                if t is not None:
                    with open(os.path.join(d, m + '.yang'), 'w') as f:
                        f.write(t)
        C = cases(run.thorough)
        C.sort(key=repr)
        size = (len(C) + 31) // 32
        for r in pmap(work, [C[i:i + size] for i in range(0, len(C), size)]):
            run.merge(r)
        run.extra['pairs of devices'] = len(C)
        run.sample({'pair': [str(x) for x in C[len(C) // 2]]})
        run.assumptions.append(
            'definitions are equal when their statements are; descriptions '
            'and unused definitions do not count')
    finally:
        core.rmtree(base)
