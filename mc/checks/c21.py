"""C21  What a device answers depends on the models it has loaded and the
folder it scanned last, not on how it got there or what was asked before."""
import itertools
import json
import os

import core
import netsim
from core import Stats, pmap, chunks
from lxml import etree

NC = netsim.NC


def mod(name, prefix, ns, body, imports=()):
    return '\n'.join(
        ['module {} {{'.format(name), ' namespace "{}";'.format(ns),
         ' prefix {};'.format(prefix)] +
        [' import {} {{ prefix {}; }}'.format(i, p) for i, p in imports] +
        [' revision 2020-01-01;', body, '}', ''])


# two folders: releases of the same modules
FOLDERS = {
    'A': {
        'm1': mod('m1', 'a', 'urn:m1',
                  'container top { leaf x { type string; default "1"; } '
                  'leaf y { type string; } list l { key k; leaf k { type '
                  'string; } } }'),
        'm2': mod('m2', 'b', 'urn:m2',
                  'augment /a:top { leaf z { type string; default "5"; } } '
                  'container two { leaf x { type string; } }',
                  [('m1', 'a')]),
        'm3': mod('m3', 'c', 'urn:m3', 'leaf-list ll { type string; }'),
    },
    'B': {
        # other defaults, other kinds of nodes, roots come and go, the prefix
        # changes
        'm1': mod('m1', 'aa', 'urn:m1',
                  'container top { leaf x { type string; default "2"; } '
                  'leaf-list y { type string; ordered-by user; } list l { '
                  'key "k k2"; leaf k { type string; } leaf k2 { type string; '
                  '} } } leaf more { type string; }'),
        'm2': mod('m2', 'b', 'urn:m2',
                  'augment /a:top { container z { leaf w { type string; } } }',
                  [('m1', 'a')]),
        'm3': mod('m3', 'c', 'urn:m3x', 'leaf-list ll { type string; } '
                  'container two { leaf x { type string; } }'),
    },
}
DOCS = [
    '<top xmlns="urn:m1"><x>1</x><y>7</y></top>',
    '<top xmlns="urn:m1"><x>2</x><y>7</y><y>8</y></top>',
    '<top xmlns="urn:m1"><y>8</y><y>7</y></top>',
    '<top xmlns="urn:m1"><l><k>1</k></l></top>',
    '<top xmlns="urn:m1"><l><k>1</k><k2>1</k2></l></top>',
    '<top xmlns="urn:m1"><z xmlns="urn:m2">5</z></top>',
    '<top xmlns="urn:m1"><z xmlns="urn:m2"><w>1</w></z></top>',
    '<more xmlns="urn:m1">1</more>',
    '<two xmlns="urn:m2"><x>1</x></two>',
    '<ll xmlns="urn:m3">1</ll><ll xmlns="urn:m3">2</ll>',
    '<ll xmlns="urn:m3x">1</ll>', '<two xmlns="urn:m3x"><x>1</x></two>',
]
TAGS = ['{urn:m1}top', '{urn:m1}x', '{urn:m2}z', '{urn:m3}ll', '{urn:m3x}ll',
        '{urn:m2}two']


def attempt(f):
    try:
        return f()
    except Exception as e:
        return 'error ' + type(e).__name__


def battery(dev):
    """Everything that can be asked, as text."""
    from ncdiff import Config, Tag
    out = {}
    out['loaded'] = dev.models_loaded
    out['roots'] = sorted(dev.roots.items())
    out['namespaces'] = sorted(attempt(lambda: dev.namespaces))
    confs = []
    for i, t in enumerate(DOCS):
        text = '<nc:config xmlns:nc="{}">{}</nc:config>'.format(NC, t)
        e = etree.fromstring(text)
        for n, x in enumerate(e.iter()):
            if n == 0:
                continue
            out['node {} {}'.format(i, n)] = attempt(lambda: sorted(
                dev.get_schema_node(x).attrib.items()))
            out['model {} {}'.format(i, n)] = attempt(
                lambda: dev.get_model_name(x))
            out['path {} {}'.format(i, n)] = attempt(
                lambda: dev.get_xpath(x, Tag.LXML_XPATH))
        c = attempt(lambda: Config(dev, text))
        out['config {}'.format(i)] = c if isinstance(c, str) else \
            etree.tostring(c.ele, method='c14n').decode()
        if not isinstance(c, str):
            out['ns {}'.format(i)] = attempt(
                lambda: sorted(c.ns.items()))
            confs.append(c)
    for i, c in enumerate(confs[:3]):
        for j, d in enumerate(confs[:3]):
            out['delta {} {}'.format(i, j)] = attempt(
                lambda: etree.tostring((c - d).nc, method='c14n').decode())
    for t in TAGS:
        for k, (src, dst) in enumerate((
                (Tag.LXML_ETREE, Tag.YTOOL), (Tag.LXML_ETREE, Tag.XPATH),
                (Tag.LXML_ETREE, Tag.LXML_XPATH))):
            out['tag {} {}'.format(t, k)] = attempt(
                lambda: dev.convert_tag('', t, src, dst))
    return out


# ---------------------------------------------------------------- histories
def ops(folder):
    return [('load', m) for m in sorted(FOLDERS['A'])] + [
        ('scan', 'A'), ('scan', 'B'), ('file', 'A'), ('file', 'B'),
        ('ask', None)]


def after(state, op):
    """The model: (scanned folder, loaded models), or None if refused."""
    scanned, loaded = state
    kind, arg = op
    if kind == 'scan':
        return (arg, loaded)
    if kind == 'load':
        if scanned is None:
            return None
        return (scanned, loaded - {(arg, 'A'), (arg, 'B')} | {(arg, scanned)})
    if kind == 'file':
        return (scanned, loaded - {('m1', 'A'), ('m1', 'B')} | {('m1', arg)})
    return state


def apply(dev, dirs, op):
    kind, arg = op
    if kind == 'scan':
        dev.scan_models(folder=dirs[arg], download='ignore')
    elif kind == 'load':
        dev.load_model(arg)
    elif kind == 'file':
        dev.load_model(os.path.join(dirs[arg], 'm1.xml'))
    else:
        battery(dev)


def new():
    return netsim.device(netsim.BASE + [
        'urn:{0}?module={0}&revision=2020-01-01'.format(m)
        for m in FOLDERS['A']], netsim.ok)[0]


DIRS = None
FRESH = {}


def fresh(state):
    """The answers of a device that goes straight to this state."""
    if state not in FRESH:
        scanned, loaded = state
        dev = new()
        for m, v in sorted(loaded):
            dev.compiler = None
            dev.scan_models(folder=DIRS[v], download='ignore')
            dev.load_model(m)
        if scanned is None:
            dev.compiler = None
        else:
            dev.scan_models(folder=DIRS[scanned], download='ignore')
        # the loaded models in the order of their names
        dev.models = dict(sorted(dev.models.items()))
        FRESH[state] = battery(dev)
    return FRESH[state]


def depends(state):
    """Independent expectations on a few answers."""
    scanned, loaded = state
    ver = dict(loaded)
    b = fresh(state)
    bad = []
    if b['loaded'] != sorted(ver):
        bad.append('loaded {}'.format(b['loaded']))
    if 'm1' in ver and scanned:
        n = dict(b['node 0 2']) if isinstance(b['node 0 2'], list) else {}
        if n.get('default') != ('1' if ver['m1'] == 'A' else '2'):
            bad.append('default of x is {}'.format(n.get('default')))
        k = dict(b['node 3 2']) if isinstance(b['node 3 2'], list) else {}
        if k.get('key') != ('k' if ver['m1'] == 'A' else 'k k2'):
            bad.append('key of l is {}'.format(k.get('key')))
    if scanned:
        want = sorted((m, t.split(' prefix ')[1].split(';')[0],
                       t.split('namespace "')[1].split('"')[0])
                      for m, t in FOLDERS[scanned].items())
        if [tuple(x) for x in b['namespaces']] != want:
            bad.append('namespaces {}'.format(b['namespaces']))
    return bad


def work(hists):
    st = Stats()
    for h in hists:
        state = (None, frozenset())
        dev = new()
        st.states += 1
        ok = True
        for op in h:
            nxt = after(state, op)
            st.transitions += 1
            try:
                apply(dev, DIRS, op)
                if nxt is None:
                    ok = False
                    bad = 'not refused'
            except ValueError as e:
                if nxt is not None:
                    ok, bad = False, repr(e)
            except Exception as e:
                ok, bad = False, repr(e)
            if not ok:
                break
            if nxt is not None:
                state = nxt
        if ok:
            st.traces += 1
            got = battery(dev)
            want = fresh(state)
            bad = None
            for k in sorted(want):
                if got.get(k) != want[k]:
                    ok = False
                    bad = '{} is {}, should be {}'.format(
                        k, got.get(k), want[k])
                    break
        if not ok:
            text = ' '.join('{}:{}'.format(*o) if o[1] else o[0] for o in h)
            st.violation('history|' + text, 'after {}: {}'.format(text, bad),
                         {'history': [list(o) for o in h]})
    return st.dict()


def histories(depth):
    o = ops(None)
    out = []
    for d in range(1, depth + 1):
        for h in itertools.product(o, repeat=d):
            if h[-1][0] == 'ask' or any(
                    x == y for x, y in zip(h, h[1:])):
                continue
            out.append(h)
    return out


def reach(depth):
    seen = {(None, frozenset())}
    todo = list(seen)
    for d in range(depth):
        nxt = []
        for s in todo:
            for op in ops(None):
                t = after(s, op)
                if t is not None and t not in seen:
                    seen.add(t)
                    nxt.append(t)
        todo = nxt
    return seen


def check(run):
    global DIRS
    core.import_ncdiff()
    base = core.scratch('mc-c21-')
    DIRS = {v: os.path.join(base, v) for v in FOLDERS}
    try:
        for v, mods in FOLDERS.items():
            os.makedirs(DIRS[v])
            for m, t in mods.items():
                with open(os.path.join(DIRS[v], m + '.yang'), 'w') as f:
                    f.write(t)
            dev = new()
            dev.scan_models(folder=DIRS[v], download='ignore')
            for m in mods:
                dev.load_model(m)       # fills the cache
        depth = 6 if run.thorough else 5
        for s in sorted(reach(depth), key=repr):
            for b in depends(s):
                run.violation('state|{}'.format(sorted(s[1])),
                              'with {}: {}'.format(s, b),
                              {'state': repr(s)})
        H = histories(depth)
        for r in pmap(work, chunks(H, 64)):
            run.merge(r)
        run.extra['device states'] = len(FRESH)
        run.sample({'history': [list(o) for o in H[-1]]})
        run.assumptions.append('models are loaded from caches of the '
                               'compiler; C16 is about compiling')
    finally:
        core.rmtree(base)
