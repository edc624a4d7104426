"""C03  config + edit-config payload == the datastore of a conforming server;
an error is raised exactly when the server rejects the payload."""
import copy
import itertools

from lxml import etree

import confcommon as cc
from checks.c01 import cc_str
from core import Stats, pmap
from data import (ServerError, DecodeError, to_xml, canon, OP, INSERT, VALUE,
                  KEY)
import data

OPS = ('merge', 'create', 'replace', 'delete', 'remove', 'bogus')


def schema_nodes(ele):
    """[(element, schema node)] of all non-key data nodes, document order."""
    out = []

    def walk(e, n):
        kids = cc.ENV.schema.kids(n)
        keys = [k.tag for k in n.key_nodes] if n.kind == 'list' else []
        for c in e:
            if c.tag in keys:
                continue
            out.append((c, kids[c.tag]))
            walk(c, kids[c.tag])
    walk(ele, cc.ENV.schema.top)
    return out


def anchors(n, e, pool):
    """Attribute values naming the instances of pool other than e itself."""
    ret = []
    if n.kind == 'leaf-list':
        for v in pool:
            if v != (e.text or ''):
                ret.append((VALUE, v))
    else:
        own = [e.find(k.tag).text for k in n.key_nodes]
        for ks in pool:
            if list(ks) != own:
                ret.append((KEY, ''.join(
                    '[%s=\'%s\']' % ('mm:' + k.name, v)
                    for k, v in zip(n.key_nodes, ks))))
    return ret


def pool_of(n):
    if n.kind == 'leaf-list':
        return {'default': ('1', '2', '3', '9')}['default']
    if len(n.key_nodes) == 1:
        return [('1',), ('2',), ('3',), ('9',)]
    return [('1', '2'), ('2', '1'), ('9', '9')]


def variants(n, e):
    """All annotations {attr: value} of one element."""
    ret = [{OP: op} for op in OPS]
    if n.kind in ('leaf-list', 'list') and n.user and not any(
            data._is_ref(k) for k in
            ([n] if n.kind == 'leaf-list' else n.key_nodes)):
        ins = [{INSERT: 'first'}, {INSERT: 'last'}, {INSERT: 'before'},
               {INSERT: 'after'}]
        for a, v in anchors(n, e, pool_of(n)):
            ins.append({INSERT: 'before', a: v})
            ins.append({INSERT: 'after', a: v})
        for i in ins:
            ret.append(i)
            for op in ('replace', 'create') if 'first' in i.values() or \
                    len(i) == 2 and 'after' == i[INSERT] else ():
                ret.append(dict(i, **{OP: op}))
    return ret


def edits(tree, pairs):
    """Every payload derived from a tree by annotating one (or two) nodes."""
    root = etree.fromstring(cc.text_of(tree).replace(
        '<nc:config ', '<nc:config xmlns:mm="%s" ' % cc.MAIN, 1))
    nodes = schema_nodes(root)
    if len(nodes) > 8:
        return
    yield copy.deepcopy(root), 'plain'
    for i, (e, n) in enumerate(nodes):
        for v in variants(n, e):
            r = copy.deepcopy(root)
            t = schema_nodes(r)[i][0]
            for a, x in v.items():
                t.set(a, x)
            yield r, '{}:{}'.format(i, sorted(v.items()))
    if not pairs:
        return
    sel = [(i, e, n) for i, (e, n) in enumerate(nodes)
           if n.kind != 'container']
    for (i, e1, n1), (j, e2, n2) in itertools.combinations(sel, 2):
        if e2 in list(e1.iterdescendants()):
            continue
        for v1 in variants(n1, e1):
            for v2 in variants(n2, e2):
                if 'bogus' in v1.values() or 'bogus' in v2.values():
                    continue
                r = copy.deepcopy(root)
                ns = schema_nodes(r)
                for k, v in ((i, v1), (j, v2)):
                    for a, x in v.items():
                        ns[k][0].set(a, x)
                yield r, '{}:{} {}:{}'.format(i, sorted(v1.items()), j,
                                              sorted(v2.items()))


def one(name, base, edit, tag, st):
    d1, k1, c1 = base
    st.transitions += 1
    try:
        want = canon(cc.ENV.schema, data.normalise(
            cc.ENV.schema, cc.SRV.edit(d1, edit)))
        err = None
    except ServerError as e:
        want, err = None, e
    case = {'slice': name, 'config': c1.xml, 'edit': cc_str(edit),
            'server': str(err) if err else None}
    key = '{}|{}|{}'.format(name, c1.xml, case['edit'])
    try:
        got = (c1 + edit)
    except Exception as e:
        from ncdiff import errors
        if err is None:
            st.violation(key, 'valid payload refused: {}\nconfig {}\nedit {}'
                         .format(cc.short(e), c1.xml, case['edit']), case)
        elif not isinstance(e, errors.ConfigDeltaError):
            st.violation(key, 'rejected with the wrong error: {}\nconfig {}\n'
                         'edit {}'.format(cc.short(e), c1.xml, case['edit']),
                         case)
        else:
            st.count('rejected')
        return
    if err is not None:
        st.violation(key, 'payload accepted that a server rejects ({})\n'
                     'config {}\nedit {}\nresult {}'.format(
                         err, c1.xml, case['edit'], got.xml), case)
        return
    try:
        k = cc.dec(got.ele)
    except DecodeError as e:
        st.violation(key, 'predicted config invalid: {}\n{}'.format(
            e, got.xml), case)
        return
    st.traces += 1
    if k != want:
        st.violation(key, 'prediction differs from the server\nconfig {}\n'
                     'edit {}\nresult {}'.format(c1.xml, case['edit'],
                                                 got.xml), case)


def work(item):
    name, idx = item
    st = Stats()
    cfg = cc.build(name)
    pairs = name in ('oleaf', 'olist') or cc.THOROUGH and name in PAIRS
    trees = [t for t in cc.SL[name]]
    bases = cfg
    for i in idx:
        st.states += 1
        for e, tag in edits(trees[i], pairs and size(trees[i], name)):
            for b in bases:
                one(name, b, e, tag, st)
        st.sample({'slice': name, 'skeleton': cc.text_of(trees[i])})
    return st


PAIRS = ('choice', 'nchoice', 'dchoice', 'topchoice', 'keydef', 'pres')


def size(t, name):
    """pairs only for small skeletons (quick: two entries)."""
    n = len(schema_nodes(etree.fromstring(cc.text_of(t))))
    return n <= (3 if not cc.THOROUGH else 4)


def check(run):
    cc.setup(run.thorough)
    try:
        names = [n for n in cc.SL]
        items = []
        for n in names:
            for i in range(len(cc.SL[n])):
                items.append((n, [i]))
        for r in pmap(work, items):
            run.merge(r)
        run.extra['slices'] = {k: len(v) for k, v in cc.SL.items()}
        run.assumptions += [
            'an explicit operation other than merge has no explicit '
            'operation below it', 'no insert attribute refers to its own '
            'element', 'default-operation merge']
    finally:
        cc.teardown()
