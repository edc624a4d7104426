"""The model under which configs are enumerated, and real devices for it."""
import itertools
import os

from core import import_ncdiff, scratch, rmtree
from yang import (Leaf, LeafList, Cont, List, Choice, Case, Schema)

MODS = {
    'm-main': ('mm', 'urn:mc:main'),
    'm-aug': ('ma', 'urn:mc:aug'),
    'm-type': ('mt', 'urn:mc:type'),
    'm-two': ('mw', 'urn:mc:two'),
}
MAIN = 'urn:mc:main'
AUG = 'urn:mc:aug'
TYPE = 'urn:mc:type'
TWO = 'urn:mc:two'

IDREF = 'identityref { base mt:base-id; }'


def build_schema():
    roots = [
        Leaf('top'),
        LeafList('tsl'),
        LeafList('tul', user=True),
        List('tl', 'k', Leaf('k'), Leaf('v')),
        Choice('tch', Case('tc1', Leaf('t1')), Case('tc2', Leaf('t2'))),
        Cont('c',
             Leaf('a'),
             Leaf('d', default='7'),
             LeafList('sl'),
             LeafList('ul', user=True),
             Leaf('a', mod='m-aug'),
             LeafList('sl', mod='m-aug'),
             Cont('x', Leaf('a'), LeafList('ul', user=True), mod='m-aug'),
             ),
        Cont('f',
             LeafList('sld', default=('1', '2')),
             LeafList('uld', user=True, default=('1', '2')),
             Leaf('e', type='empty'),
             Leaf('u', type='union { type int8; type string; }'),
             Leaf('td', type='mt:dt', default='4', typed=True),
             LeafList('tdl', type='mt:dt', default=('4',), typed=True),
             ),
        Cont('p',
             Cont('pc', Leaf('x'), Leaf('dx', default='5'),
                  Cont('in', Leaf('y')), presence=True),
             Cont('np', Leaf('y'), Leaf('dy', default='9'),
                  Cont('deep', Leaf('z'), LeafList('zl'),
                       Cont('pin', Leaf('q'), presence=True))),
             ),
        Cont('s',
             List('l', 'k', Leaf('k'), Leaf('v'), Leaf('dv', default='3'),
                  Cont('lc', Leaf('w')),
                  LeafList('ll'),
                  List('n', 'nk', Leaf('nk'), Leaf('nv'))),
             ),
        Cont('o',
             List('ol', 'k', Leaf('k'), Leaf('v'), user=True),
             LeafList('ul', user=True),
             ),
        Cont('m',
             List('mk', 'k2 k1', Leaf('k1'), Leaf('v'), Leaf('k2')),
             List('omk', 'k2  k1', Leaf('k1'), Leaf('v'), Leaf('k2'),
                  user=True),
             List('kd', 'k', Leaf('k', default='0'), Leaf('v')),
             ),
        Cont('h',
             Choice('ch',
                    Case('ca', Leaf('a1'), Leaf('a2')),
                    Case('cb', Leaf('b1'), Cont('bc', Leaf('q'))),
                    Case('cl', LeafList('hl'),
                         List('hli', 'k', Leaf('k'), Leaf('v'))),
                    Case('cx', Leaf('x1', mod='m-aug'), mod='m-aug')),
             Leaf('out'),
             ),
        Cont('hh',
             Choice('oc',
                    Case('o1',
                         Choice('ic', Case('i1', Leaf('i1')),
                                Case('i2', Leaf('i2'), Leaf('i2b'))),
                         Leaf('o1x')),
                    Case('o2', Leaf('o2'),
                         Cont('o2c', Leaf('z')))),
             ),
        Cont('hd',
             Choice('dch',
                    Case('d1', Leaf('d1', default='1'), Leaf('d1b')),
                    Case('d2', Leaf('d2')), default='d1'),
             ),
        Cont('i',
             Leaf('id', type=IDREF),
             LeafList('idl', type=IDREF),
             LeafList('idul', type=IDREF, user=True),
             List('il', 't', Leaf('t', type=IDREF), Leaf('v')),
             List('iul', 't', Leaf('t', type=IDREF), Leaf('v'), user=True),
             Leaf('iid', type='instance-identifier'),
             LeafList('iidl', type='instance-identifier'),
             Leaf('tid', type='mt:idt', ref='identityref'),
             Leaf('lid', type='leafref { path "../tid"; }',
                  ref='identityref'),
             List('rl', 't', Leaf('t', type='leafref { path "../../tid"; }',
                                  ref='identityref'), Leaf('v')),
             Leaf('tiid', type='mt:iidt', ref='instance-identifier'),
             Leaf('did', type=IDREF, default='{%s}id-a' % TYPE),
             ),
        Cont('st',
             Leaf('cur'),
             Leaf('dep', status='deprecated'),
             Leaf('obs', status='obsolete'),
             Cont('dc', Leaf('x'), status='deprecated'),
             Cont('oc', Leaf('x'), status='obsolete'),
             LeafList('dl', status='deprecated'),
             List('dli', 'k', Leaf('k'), Leaf('v', status='deprecated')),
             Leaf('oper', config=False),
             Cont('ops', Leaf('ctr', config=False),
                  Leaf('x')),
             List('sli', 'k', Leaf('k'), Leaf('v'), Leaf('cnt', config=False)),
             List('nokey', '', Leaf('x'), config=False),
             # state below presence, in deep containers, in lists
             Cont('spp', Leaf('x'), Leaf('sc', config=False),
                  Cont('si', Leaf('sc', config=False)), presence=True),
             Cont('sd', Cont('sd1', Cont('sd2', LeafList('sll', config=False),
                                         Leaf('x')))),
             List('sll2', 'k', Leaf('k'),
                  Cont('sc', Leaf('x'), Leaf('y'), config=False),
                  Cont('sp', Leaf('y', config=False), presence=True),
                  List('sl3', 'k', Leaf('k'), Leaf('x', config=False))),
             Cont('sro', Leaf('x'), Cont('y', Leaf('z')), config=False),
             ),
        # order within order, within system-ordered entries, in another module
        Cont('n',
             List('on', 'k', Leaf('k'), Leaf('v'), LeafList('ul', user=True),
                  List('in', 'k', Leaf('k'), Leaf('v'), user=True),
                  user=True),
             List('sn', 'k', Leaf('k'), LeafList('ul', user=True),
                  List('in', 'k', Leaf('k'), Leaf('v'), user=True)),
             Cont('pr', List('ol', 'k', Leaf('k'), user=True), presence=True),
             List('aol', 'k', Leaf('k'), Leaf('v'), user=True, mod='m-aug'),
             # nodes of another module with the names of keys
             List('akl', 'k', Leaf('k'), Leaf('k', mod='m-aug')),
             List('auk', 'k2 k1', Leaf('k1'), Leaf('k2'),
                  Leaf('k1', mod='m-aug'), LeafList('k2', mod='m-aug'),
                  user=True),
             ),
        # choices and presence containers in entries, three keys
        Cont('z',
             List('zl', 'k', Leaf('k'),
                  Choice('zc',
                         Case('za', LeafList('ul', user=True)),
                         Case('zb', Cont('zp', Leaf('x'), presence=True)),
                         Case('zd', Leaf('y'),
                              List('yl', 'k', Leaf('k'),
                                   Cont('yp', presence=True)))),
                  Cont('pl', Leaf('x'), presence=True)),
             List('k3', 'kc\n   ka\t kb', Leaf('ka'), Leaf('kb'), Leaf('v'),
                  Leaf('kc')),
             ),
        # names of m-main in another module
        Cont('c', Leaf('a'), LeafList('sl'), LeafList('ul', user=True),
             mod='m-two'),
        Leaf('top', mod='m-two'),
        List('tl', 'k', Leaf('k'), Leaf('v'), user=True, mod='m-two'),
    ]
    header = {
        'm-main': {
            'imports': ['m-type'],
            'text': '  identity own-id { base mt:base-id; }\n',
        },
        'm-aug': {'imports': ['m-main', 'm-type'],
                  'text': '  identity id-a { base mt:base-id; }\n'
                          '  container ar { leaf z { type string; } }\n'},
        'm-type': {'text': '  identity base-id;\n'
                           '  identity id-a { base base-id; }\n'
                           '  identity id-b { base base-id; }\n'
                           '  typedef idt { type identityref { base base-id; '
                           '} }\n  typedef iidt { type instance-identifier; }'
                           '\n  typedef dt0 { type int8; default 4; }\n'
                           '  typedef dt { type dt0; }\n'},
    }
    return Schema('m-main', roots, MODS, header)


class FakeSession(object):
    """Stands in for an ncclient session; nothing is ever sent."""

    def __init__(self, caps):
        self._connected = True
        self._server_capabilities = set(caps)
        self.server_capabilities = self._server_capabilities
        self.client_capabilities = set()
        self.id = 1

    @property
    def connected(self):
        return self._connected

    def add_listener(self, listener):
        pass

    def remove_listener(self, listener):
        pass

    def get_listener_instance(self, cls):
        return None

    def send(self, message):
        raise RuntimeError('nothing may be sent')


def caps_for(modules):
    return ['urn:ietf:params:netconf:base:1.0',
            'urn:ietf:params:netconf:capability:candidate:1.0'] + [
        '{}?module={}&revision=2024-01-01'.format(ns, name)
        for name, (prefix, ns) in modules.items()]


def write_texts(texts, folder):
    os.makedirs(folder, exist_ok=True)
    for name, text in texts.items():
        with open(os.path.join(folder, name + '.yang'), 'w') as f:
            f.write(text)


def make_device(schema, folder, load=None, texts=None):
    """A real ModelDevice whose models are compiled from ``folder``."""
    import_ncdiff()
    from ncdiff import ModelDevice
    from ncclient.devices.default import DefaultDeviceHandler
    write_texts(texts or schema.texts(), folder)
    dev = ModelDevice(FakeSession(caps_for(schema.modules)),
                      DefaultDeviceHandler())
    dev.scan_models(folder=folder, download='ignore')
    # main comes last: get_statement() knows the model compiled last
    for m in (load if load is not None else sorted(
            set(r.mod for r in schema.roots), key=lambda x: x == schema.main)):
        dev.load_model(m)
    return dev


class Env(object):
    """Schema + device + scratch folder, built once per process tree."""

    def __init__(self, schema=None, load=None):
        self.schema = schema or build_schema()
        self.folder = scratch('mc-yang-')
        try:
            self.dev = make_device(self.schema, self.folder, load)
        except BaseException:
            rmtree(self.folder)
            raise

    def close(self):
        rmtree(self.folder)


# ------------------------------------------------------------------ slices
def prod(ns, **opts):
    """All dicts over the options; None means absent."""
    names = list(opts)
    out = []
    for combo in itertools.product(*[opts[n] for n in names]):
        d = {}
        for n, v in zip(names, combo):
            if v is None:
                continue
            tag = n if n.startswith('{') else '{%s}%s' % (ns, n)
            d[tag] = v
        out.append(d)
    return out


def m(name):
    return '{%s}%s' % (MAIN, name)


def a(name):
    return '{%s}%s' % (AUG, name)


def w(name):
    return '{%s}%s' % (TWO, name)


def perms(values, maxlen=None):
    """All duplicate-free sequences over values (incl. empty)."""
    maxlen = len(values) if maxlen is None else maxlen
    out = []
    for k in range(maxlen + 1):
        out += list(itertools.permutations(values, k))
    return out


def subsets(values):
    out = []
    for k in range(len(values) + 1):
        out += list(itertools.combinations(values, k))
    return out


def opt(seq):
    """Empty tuples/lists become absent."""
    return [x if x else None for x in seq]


def wrap(name, dicts):
    """Put each dict in container ``name``; empty dict -> empty config."""
    return [({m(name): d} if d else {}) for d in dicts]


def slices(thorough=False):
    """{slice name: [data trees]}; every tree is valid and normalised."""
    S = {}
    T = thorough
    # top level nodes of every kind
    S['top'] = prod(MAIN,
                    top=[None, '1', '2'],
                    tsl=opt(subsets('12')),
                    tul=opt(perms('12')),
                    tl=[None, [{m('k'): '1'}], [{m('k'): '1', m('v'): 'x'}]],
                    ) if T else prod(
        MAIN, top=[None, '1'], tsl=[None, ('1',), ('1', '2')],
        tul=[None, ('1', '2'), ('2', '1')],
        tl=[None, [{m('k'): '1'}], [{m('k'): '1', m('v'): 'x'}]])
    S['topchoice'] = prod(MAIN, t1=[None, '1', '2'], t2=[None],
                          top=[None, '1']) + \
        prod(MAIN, t2=['1', '2'], top=[None, '1'])
    # leaves, defaults, leaf-lists, same names from two namespaces
    S['leaf'] = wrap('c', prod(
        MAIN, a=[None, '1', '2'], d=[None, '8'],
        sl=opt(subsets('12')),
        ul=[None, ('2', '1')] if not T else [None, ('1',), ('2', '1')],
        **({a('a'): [None, '1'], a('sl'): [None, ('2',)]} if T else {})))
    S['aug'] = wrap('c', prod(
        MAIN, a=[None, '1'], ul=[None, ('1', '2')],
        **{a('a'): [None, '1', '2'] if T else [None, '2'],
           a('sl'): [None, ('2',)],
           a('x'): [None] + prod(AUG, a=['1'], ul=opt(perms('12')[:4 if T else 2]))}))
    S['fleaf'] = wrap('f', prod(
        MAIN, sld=[None, ('1',), ('1', '3'), ('1', '2', '3')],
        uld=[None, ('2', '1'), ('1', '3')],
        e=[None, ''], u=[None, 'a b'] + (['1'] if T else [])))
    S['tdef'] = wrap('f', prod(
        MAIN, td=[None, '3'], tdl=[None, ('3',), ('3', '4')],
        u=[None, '4']))
    # presence / non-presence containers
    pc = [None, {}] + prod(MAIN, x=['1', '2'], dx=[None, '6']) + \
        [{m('dx'): '6'}, {m('in'): {m('y'): '1'}},
         {m('x'): '1', m('in'): {m('y'): '2'}}]
    deep = [None] + [x for x in prod(
        MAIN, z=[None, '1', '2'], zl=[None, ('1', '2')],
        pin=[None, {}] + ([{m('q'): '1'}] if T else [])) if x]
    S['cont'] = wrap('p', prod(
        MAIN, pc=pc[:3] + pc[-1:] if not T else pc,
        np=[None] + [x for x in prod(
            MAIN, y=[None, '1'], dy=[None],
            deep=deep[:7] if not T else deep) if x]))
    S['pres'] = wrap('p', prod(
        MAIN, pc=pc, np=[None, {m('dy'): '8'}, {m('y'): '2', m('dy'): '8'}]))
    # keyed lists with nesting
    ents1 = [None, {}, {'v': '1'}, {'v': '2', 'lc': {m('w'): '1'}},
             {'ll': ('1', '2')}, {'ll': ('2',), 'dv': '4'},
             {'n': [{m('nk'): '1'}]},
             {'n': [{m('nk'): '1', m('nv'): '1'}, {m('nk'): '2'}]}]
    ents2 = [None, {}, {'v': '1'}, {'lc': {m('w'): '2'}}]

    def ent(k, e):
        d = {m('k'): k}
        d.update({m(x): y for x, y in e.items()})
        return d

    S['list'] = wrap('s', [
        {m('l'): [ent('1', e1)] * (e1 is not None) +
         ([ent('2', e2)] if e2 is not None else [])}
        if e1 is not None and e2 is not None else
        ({m('l'): [ent('1', e1)]} if e1 is not None else
         ({m('l'): [ent('2', e2)]} if e2 is not None else {}))
        for e1 in ents1 for e2 in (ents2 + ents1[4:7] if T else ents2)])
    # user-ordered lists and leaf-lists, all permutations
    keys = '123' if not T else '1234'
    S['olist'] = wrap('o', [
        {m('ol'): [dict({m('k'): k}, **({m('v'): '1'} if k in vs else {}))
                   for k in p]} if p else {}
        for p in perms(keys) for vs in (('',) if T else ('', '2'))])
    S['oleaf'] = wrap('o', [{m('ul'): p} if p else {}
                            for p in perms(keys)])
    S['oboth'] = wrap('o', [
        {k: v for k, v in ((m('ul'), p),
                           (m('ol'), [{m('k'): x} for x in q])) if v}
        for p in perms('12') for q in perms('12')])
    # multi-key lists, keys not first in the schema, key with default
    mks = [('1', '1'), ('1', '2'), ('2', '1')]
    S['mkey'] = wrap('m', [
        {k: v for k, v in (
            (m('mk'), [dict({m('k1'): x, m('k2'): y},
                            **({m('v'): w} if w else {}))
                       for (x, y) in sub]),
            (m('omk'), [{m('k1'): x, m('k2'): y} for (x, y) in q]),
            (m('kd'), [{m('k'): x} for x in kd])) if v}
        for sub in (subsets(mks) if T else subsets(mks[:2]) + [tuple(mks[1:])])
        for w in (None, '1')
        if sub or w is None
        for q in (perms(mks[1:]) if not T else perms(mks, 2))
        for kd in (((),) if not T else ((), ('0',)))])
    S['keydef'] = wrap('m', [
        {m('kd'): [dict({m('k'): k}, **({m('v'): v} if v else {}))
                   for k in ks]} if ks else {}
        for ks in subsets('012') for v in (None, '1')])
    # choices
    ca = [x for x in prod(MAIN, a1=[None, '1', '2'], a2=[None, '1']) if x]
    cb = [x for x in prod(MAIN, b1=[None, '1'],
                          bc=[None, {m('q'): '1'}, {m('q'): '2'}]) if x]
    cl = [{m('hl'): ('1',)}, {m('hl'): ('1', '2')},
          {m('hli'): [{m('k'): '1'}]},
          {m('hl'): ('2',), m('hli'): [{m('k'): '1', m('v'): '1'}]}]
    cx = [{a('x1'): '1'}, {a('x1'): '2'}]
    S['choice'] = wrap('h', [
        dict(x, **({m('out'): o} if o else {}))
        for x in [{}] + ca + cb + cl + cx for o in (None, '1')])
    o1 = prod(MAIN, i1=['1', '2'], o1x=[None, '1']) + \
        [x for x in prod(MAIN, i2=[None, '1'], i2b=[None, '1'],
                         o1x=[None, '1']) if x]
    o2 = [x for x in prod(MAIN, o2=[None, '1', '2'],
                          o2c=[None, {m('z'): '1'}]) if x]
    S['nchoice'] = wrap('hh', [{}] + o1 + o2)
    S['dchoice'] = wrap('hd', [{}] + prod(MAIN, d2=['1', '2']) + [
        x for x in prod(MAIN, d1=[None, '2', '3'], d1b=[None, '1']) if x])
    # identityref / instance-identifier
    ida, idb = '{%s}id-a' % TYPE, '{%s}id-b' % TYPE
    own, aug = '{%s}own-id' % MAIN, '{%s}id-a' % AUG
    S['idref'] = wrap('i', [x for x in prod(
        MAIN, id=[None, ida, own, aug],
        idl=opt(subsets((ida, own))) + [(aug,)] if T else [None, (ida,), (ida, aug)],
        il=[None, [{m('t'): ida}], [{m('t'): own, m('v'): '1'}],
            [{m('t'): ida, m('v'): '1'}, {m('t'): aug}]])])
    S['idord'] = wrap('i', [x for x in prod(
        MAIN, idul=opt(perms((ida, own))),
        iul=opt([[{m('t'): t} for t in p] for p in perms((ida, own, aug)
                                                         if T else (ida, aug))]))])
    iids = ['/{%s}c/{%s}a' % (MAIN, MAIN),
            '/{%s}c/{%s}a' % (MAIN, AUG),
            "/{%s}s/{%s}l[{%s}k='1']/{%s}v" % (MAIN, MAIN, MAIN, MAIN),
            "/{%s}c/{%s}sl[.='1']" % (MAIN, MAIN),
            '/{%s}s/{%s}l[{%s}k="it\'s"]' % (MAIN, MAIN, MAIN),
            "/{%s}s/{%s}l[{%s}k='a\"b']" % (MAIN, MAIN, MAIN)]
    S['iid'] = wrap('i', [x for x in prod(
        MAIN, iid=[None] + iids,
        iidl=opt(subsets(iids[:2])) + [(iids[2],), (iids[2], iids[3]), (iids[4],)])])
    # types derived from them
    S['idtyp'] = wrap('i', [x for x in prod(
        MAIN, tid=[None, ida, aug], lid=[None, own, aug],
        rl=[None, [{m('t'): ida}], [{m('t'): own, m('v'): '1'},
                                    {m('t'): aug}]],
        tiid=[None] + (iids[:2] if T else iids[1:2]))])
    # awkward values everywhere
    sv = ["it's", 'a"b', '', 'x]y[', ' sp ', '&<é>', 'a/b:c', '{u}v']
    S['values'] = [{}] + [x for v in (sv if T else sv[:6]) for x in (
        {m('c'): {m('a'): v, m('sl'): (v,)}},
        {m('s'): {m('l'): [{m('k'): v, m('v'): v}]}},
        {m('o'): {m('ul'): (v, '1'), m('ol'): [{m('k'): v}, {m('k'): '1'}]}},
        {m('o'): {m('ul'): ('1', v, '2'),
                  m('ol'): [{m('k'): '1'}, {m('k'): v}, {m('k'): '2'}]}},
        {m('m'): {m('mk'): [{m('k1'): v, m('k2'): '1'}],
                  m('omk'): [{m('k1'): v, m('k2'): '1'},
                             {m('k1'): '1', m('k2'): v}]}})]
    # no predicate of a yang:key attribute can hold both kinds of quotes
    v = 'a\'b"c'
    S['values'] += [{m('c'): {m('a'): v, m('sl'): (v, '1')}},
                    {m('s'): {m('l'): [{m('k'): v, m('v'): v}]}},
                    {m('m'): {m('mk'): [{m('k1'): v, m('k2'): v}]}},
                    {m('o'): {m('ul'): ('1', v, '2')}}]
    # order in entries that move themselves
    def seq(keys, f=None):
        return [dict({m('k'): k}, **(f or {})) for k in keys]

    subs = [{}, {'ul': ('1', '2')}, {'ul': ('2', '1'), 'in': seq('12')},
            {'in': seq('21')}, {'v': '1', 'in': seq('2', {m('v'): '1'})}]
    S['nord'] = wrap('n', [{}] + [
        {m('on'): [ent('1', e1)] + ([ent('2', e2)] if e2 is not None else [])}
        for e1 in subs for e2 in (None, {}, subs[2])] + [
        {m('on'): [ent('2', e2), ent('1', e1)]}
        for e1 in (subs if T else subs[:3])
        for e2 in ({}, subs[2], subs[3])])
    S['sord'] = wrap('n', [x for x in prod(
        MAIN, sn=[None] + [[ent('1', e1)] + ([ent('2', subs[1])] * two)
                           for e1 in subs[:4] for two in (0, 1)],
        pr=[None, {}, {m('ol'): seq('12')}, {m('ol'): seq('21')}])])
    S['aord'] = wrap('n', [
        x for x in prod(MAIN, pr=[None, {}], **{a('aol'): opt(
            [[dict({a('k'): k}, **({a('v'): '1'} if k == y else {}))
              for k in p] for p in perms('123', 3 if T else 2)
             for y in ('01' if '1' in p else '0')])})])
    aks = [[], ['1'], ['2'], ['1', '2']]
    S['augkey'] = wrap('n', [
        {m('akl'): [dict({m('k'): k}, **({a('k'): v} if v else {}))
                    for k, v in zip(ks, vs)]} if ks else {}
        for ks in aks for vs in itertools.product(
            (None, '1', '2'), repeat=len(ks))] + [
        {m('auk'): [dict({m('k1'): x, m('k2'): y}, **z) for x, y in ks]}
        for ks in ([('1', '1')], [('1', '2'), ('2', '1')],
                   [('2', '1'), ('1', '2')])
        for z in ({}, {a('k1'): '1'}, {a('k1'): '2', a('k2'): ('1', '2')})])
    # choices and presence containers in entries
    zs = [{}, {'ul': ('1',)}, {'ul': ('2', '1')}, {'zp': {}},
          {'zp': {m('x'): '1'}}, {'y': '1'}, {'yl': seq('1')},
          {'yl': seq('1', {m('yp'): {}}), 'y': '2'}]
    S['zent'] = wrap('z', [{}] + [
        {m('zl'): [ent('1', dict(e1, **pl))] + (
            [ent('2', e2)] if e2 is not None else [])}
        for e1 in zs for pl in ({}, {'pl': {}})
        for e2 in (None, zs[2])] + [
        {m('zl'): [ent('1', {'pl': {m('x'): '1'}})]},
        {m('zl'): [ent('1', {'pl': {m('x'): '1'}, 'y': '1'})]}])
    S['key3'] = wrap('z', [
        {m('k3'): [dict({m('ka'): x, m('kb'): y, m('kc'): z},
                        **({m('v'): v} if v else {}))
                   for x, y, z in sub]} if sub else {}
        for sub in subsets(('112', '121', '211', '122')[:4 if T else 3])
        for v in ((None, '1') if sub else (None,))])
    # long sequences: more than nine entries, one moved, added or removed
    ten = [str(i) for i in range(1, 12)]
    longs = [ten, ten[:-1], ten[1:]] + [
        ten[:i] + ten[i + 1:j] + [ten[i]] + ten[j:]
        for i, j in ((0, 11), (0, 10), (1, 10), (8, 10))] + [
        [ten[-1]] + ten[:-1], ten[::-1], ten[5:] + ten[:5]]
    S['long'] = wrap('o', [{}] + [{m('ol'): [{m('k'): k} for k in p]}
                                  for p in longs] +
                     [{m('ul'): tuple(p)} for p in longs])
    # names of one module in another one
    S['two'] = [x for x in prod(
        MAIN, top=[None, '1'],
        c=[None, {m('a'): '1'}] + [{m('a'): '1', m('sl'): ('1',)}] * T,
        tl=[None, [{m('k'): '1'}]][:1 + T],
        **{w('top'): [None, '1'],
           w('c'): [None, {w('a'): '1'}, {w('ul'): ('2', '1')}],
           w('tl'): [None, [{w('k'): '1'}, {w('k'): '2'}]] +
           ([[{w('k'): '2'}, {w('k'): '1'}]] if T else [])})]
    # everything mixed, one representative per feature
    S['mix'] = [
        {k: v for k, v in d.items()} for d in prod(
            MAIN, top=[None, '1'] if T else [None],
            c=[None, {m('a'): '1', a('a'): '2'}],
            s=[None, {m('l'): [{m('k'): '1', m('v'): '1'}]},
               {m('l'): [{m('k'): '1'}, {m('k'): '2'}]}],
            o=[None, {m('ol'): [{m('k'): '1'}, {m('k'): '2'}]},
               {m('ol'): [{m('k'): '2'}, {m('k'): '1'}]}],
            h=[None, {m('a1'): '1'}, {m('b1'): '1'}],
            p=[None, {m('pc'): {}}] if T else [None])]
    return S
