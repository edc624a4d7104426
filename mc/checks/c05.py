"""C05  Construction normalises (defaults, empty containers, obsolete and, on
request, deprecated nodes) and rejects what does not fit the models."""
import copy

from lxml import etree

import confcommon as cc
import styles
from core import Stats, pmap, chunks
from data import to_xml, canon, NC, YANG, OP, INSERT, VALUE, KEY, from_element
from fixture import prod, wrap, m, a, MAIN, AUG, TYPE, subsets, perms, opt


def oracle(d, node, status, drop_dep):
    """Expected content after construction."""
    kids = cc.ENV.schema.kids(node)
    out = {}
    for t, v in d.items():
        n = kids[t]
        gone = status and (n.status == 'obsolete' or
                           n.status == 'deprecated' and drop_dep)
        if n.kind == 'leaf':
            if n.default is not None and not n.is_key and v == n.default:
                continue
            r = v
        elif n.kind == 'leaf-list':
            if n.default and (tuple(v) == n.default if n.user
                              else set(v) == set(n.default)):
                continue
            r = v
        elif n.kind == 'container':
            r = oracle(v, n, status, drop_dep)
            if not r and not n.presence:
                continue
        else:
            r = [oracle(e, n, status, drop_dep) for e in v]
            r = [e for e in r if e]
            if not r:
                continue
        if not gone:
            out[t] = r
    return out


def raw(thorough):
    """Trees with defaults, empty nodes and status nodes written out."""
    T = thorough
    S = {}
    S['c'] = wrap('c', prod(
        MAIN, a=[None, '1', '7'], d=[None, '7', '8'], sl=[None, ('1',)],
        ul=[None, ('2', '1')],
        **{a('x'): [None, {}] + prod(AUG, a=['1'])})) + [{m('c'): {}}]
    S['f'] = wrap('f', prod(
        MAIN, sld=[None, ('1',), ('1', '2'), ('2', '1'), ('1', '2', '3'),
                   ('3', '1')],
        uld=[None, ('1', '2'), ('2', '1'), ('1',), ('1', '2', '3')],
        e=[None, ''], u=[None, '1']))
    pin = [None, {}, {m('q'): '1'}]
    deep = [None] + prod(MAIN, z=[None, '1'], zl=[None, ('1',)], pin=pin)
    S['p'] = wrap('p', prod(
        MAIN,
        pc=[None] + prod(MAIN, x=[None, '1'], dx=[None, '5', '6'],
                         **{m('in'): [None, {}, {m('y'): '1'}]}),
        np=[None] + prod(MAIN, y=[None], dy=[None, '9', '8'],
                         deep=deep if T else deep[:5])))
    ent = [dict({m('k'): '1'}, **x) for x in prod(
        MAIN, v=[None, '3'], dv=[None, '3', '4'],
        lc=[None, {}, {m('w'): '1'}],
        n=[None, [{m('nk'): '1'}, {m('nk'): '2', m('nv'): '1'}]])]
    S['s'] = [{m('s'): {m('l'): [e]}} for e in ent] + \
        [{m('s'): {m('l'): [e, {m('k'): '2', m('dv'): x}]}}
         for e in ent for x in '34']
    S['kd'] = [{m('m'): {m('kd'): [dict({m('k'): k}, **v) for k in ks]}}
               for ks in subsets('01') if ks
               for v in ({}, {m('v'): '1'}, {m('v'): '0'})]
    S['hd'] = wrap('hd', prod(MAIN, d1=[None, '1', '2'], d1b=[None, '1']) +
                   prod(MAIN, d2=['1', '2']))
    st = prod(
        MAIN, cur=[None, '1'], dep=[None, '1'], obs=[None, '1'],
        dc=[None, {}, {m('x'): '1'}], oc=[None, {m('x'): '1'}],
        dl=[None, ('1', '2')],
        dli=[None, [{m('k'): '1'}], [{m('k'): '1', m('v'): '1'},
                                     {m('k'): '2'}]])
    S['st'] = wrap('st', st)
    return S


RAW = None


def good(item):
    from ncdiff import Config
    name, idx = item
    st = Stats()
    top = cc.ENV.schema.top
    for i in idx:
        d = RAW[name][i]
        st.states += 1
        x = cc.text_of(d)
        plain = etree.fromstring(x)
        forms = [(label, th) for label, th in styles.variants(d)
                 if label in ('indented element', 'comments', 'other prefixes',
                              'nodes in reverse order', 'rpc-reply')]
        forms.append(('plain', lambda: x))
        for label, th in forms:
            for validate in (True, False):
                for dep in (False, True):
                    st.transitions += 1
                    key = '{}|{}|{}|{}|{}'.format(name, x, label, validate,
                                                  dep)
                    arg = th()
                    before = arg if isinstance(arg, str) else styles.s(arg)
                    want = canon(cc.ENV.schema,
                                 oracle(d, top, validate, dep))
                    case = {'config': x, 'writing': label,
                            'validate': validate, 'remove_deprecated': dep}
                    try:
                        c = Config(cc.ENV.dev, arg, validate, dep)
                        got = cc.dec(c.ele)
                        again = Config(cc.ENV.dev, c.xml, validate, dep)
                        same = Config(cc.ENV.dev, c.ele, validate, dep)
                        got2, got3 = cc.dec(again.ele), cc.dec(same.ele)
                        raw_ = Config(cc.ENV.dev, arg, False)
                        kept = styles.s(raw_.ele)
                        got4 = cc.dec(Config(cc.ENV.dev, raw_, validate,
                                             dep).ele)
                        kept = styles.s(raw_.ele) == kept
                        models = c.models
                    except Exception as e:
                        st.violation(key, 'valid config not accepted: {}\n{}'
                                     .format(cc.short(e), before), case)
                        continue
                    st.traces += 1
                    if got != want:
                        st.violation(key, 'wrong normal form (validate={}, '
                                     'remove_deprecated={}): {}\nof {}'.format(
                                         validate, dep, c.xml, before), case)
                    elif got4 != want or not kept:
                        st.violation(key, 'Config(config): {} of {}{}'.format(
                            got4, before, '' if kept else
                            ' changes the config it is made from'), case)
                    elif got2 != want or got3 != want:
                        st.violation(key, 'construction not idempotent: {}'
                                     .format(before), case)
                    elif models != (['m-main'] if want else []):
                        st.violation(key, 'models {} of {}'.format(
                            models, c.xml), case)
                    after = arg if isinstance(arg, str) else styles.s(arg)
                    if after != before:
                        st.violation(key, 'construction modified its input\n'
                                     '{}\n->\n{}'.format(before, after), case)
        st.sample({'raw': x})
    return st


def mutants(root):
    """(label, element, error class) : every single-fault corruption."""
    from ncdiff.errors import ConfigError, ModelMissing
    schema = cc.ENV.schema
    nodes = []

    def walk(e, n, path):
        kids = schema.kids(n)
        for i, c in enumerate(e):
            nodes.append((path + [i], kids[c.tag], n))
            walk(c, kids[c.tag], path + [i])
    walk(root, schema.top, [])

    def at(r, path):
        for i in path:
            r = r[i]
        return r

    def fresh(path):
        r = copy.deepcopy(root)
        return r, at(r, path)

    for path, n, pn in nodes:
        # unknown child, wrong namespace child
        if n.kind in ('container', 'list'):
            for tag in ('{%s}bogus' % n.ns, '{urn:unknown}a',
                        '{%s}id' % TYPE):
                r, e = fresh(path)
                etree.SubElement(e, tag).text = '1'
                yield 'unknown child ' + tag, r, ConfigError
            if n.ns == MAIN and n.name != 'c':
                r, e = fresh(path)
                etree.SubElement(e, '{%s}a' % AUG).text = '1'
                if '{%s}a' % AUG not in schema.kids(n):
                    yield 'child of another place', r, ConfigError
        # missing key
        if n.kind == 'list':
            for k in n.key_nodes:
                r, e = fresh(path)
                e.remove(e.find(k.tag))
                # an entry that holds nothing is pruned, not rejected
                if oracle(from_element(schema, e, n), n, False, False):
                    yield 'missing key ' + k.name, r, ConfigError
        # edit attributes
        for tag, v in ((OP, 'merge'), (OP, 'delete'), (INSERT, 'first'),
                       (VALUE, '1'), (KEY, "[k='1']")):
            r, e = fresh(path)
            e.set(tag, v)
            yield 'attribute ' + tag, r, ConfigError
    for tag, err in (('{%s}bogus' % MAIN, ConfigError),
                     ('{urn:unknown}top', ConfigError),
                     ('{%s}ar' % AUG, ModelMissing)):
        for first in (True, False):
            r = copy.deepcopy(root)
            e = etree.Element(tag)
            etree.SubElement(e, '{%s}z' % AUG).text = '1'
            r.insert(0 if first else len(r), e)
            yield 'unknown root ' + tag, r, err


def bad(item):
    from ncdiff import Config, errors
    name, idx = item
    st = Stats()
    for i in idx:
        d = RAW[name][i]
        st.states += 1
        root = etree.fromstring(cc.text_of(d))
        for label, r, err in mutants(root):
            if 'attribute' in label and not survives(r):
                continue
            x = styles.s(r)
            for arg in (x, r):
                st.transitions += 1
                key = '{}|{}|{}'.format(name, label, x)
                try:
                    c = Config(cc.ENV.dev, arg)
                except errors.ConfigError as e:
                    st.traces += 1
                    if err is errors.ModelMissing:
                        st.violation(key, '{}: wrong error {}\n{}'.format(
                            label, cc.short(e), x), {'config': x})
                except (errors.ModelError, errors.ModelMissing) as e:
                    # ModelMissing: a root of a model that is not loaded
                    if 'unknown root' not in label:
                        st.violation(key, '{}: wrong error {}\n{}'.format(
                            label, cc.short(e), x), {'config': x})
                    else:
                        st.traces += 1
                except Exception as e:
                    st.violation(key, '{}: wrong error {}\n{}'.format(
                        label, cc.short(e), x), {'config': x})
                else:
                    st.violation(key, 'invalid config accepted ({}):\n{}\nas '
                                 '{}'.format(label, x, c.xml), {'config': x})
    return st


def survives(r):
    """The node with an edit attribute is not trimmed away first."""
    e = [x for x in r.iter() if x.attrib][0]
    d = from_element(cc.ENV.schema, r, strict_attrib=False)
    top = cc.ENV.schema.top
    path = []
    x = e
    while x.getparent() is not None:
        path.insert(0, x)
        x = x.getparent()
    cur, n = oracle(d, top, False, False), top
    for x in path:
        n = cc.ENV.schema.kids(n)[x.tag]
        if x.tag not in cur:
            return False
        if n.kind == 'list':
            ks = [k.tag for k in n.key_nodes]
            mine = [x.find(k).text for k in ks]
            c = [y for y in cur[x.tag] if [y.get(k) for k in ks] == mine]
            if not c:
                return False
            cur = c[0]
        elif n.kind == 'container':
            cur = cur[x.tag]
        else:
            return True
    return True


def check(run):
    global RAW
    cc.setup(run.thorough)
    try:
        RAW = raw(run.thorough)
        items = [(n, c) for n in RAW for c in chunks(range(len(RAW[n])), 8)]
        for r in pmap(good, items):
            run.merge(r)
        small = []
        for n in RAW:
            # corruption of every tree with at most 6 elements
            idx = [i for i in range(len(RAW[n]))
                   if cc.text_of(RAW[n][i]).count('</') <= 7]
            small += [(n, c) for c in chunks(idx, 4)]
        for r in pmap(bad, small):
            run.merge(r)
        run.extra['families'] = {k: len(v) for k, v in RAW.items()}
        run.assumptions += ['with validate=False only trimming happens']
    finally:
        cc.teardown()
