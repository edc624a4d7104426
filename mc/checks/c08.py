"""C08  filter(): what an xpath selects, with the ancestors and the list keys
needed to place it, and nothing else."""
import itertools

from lxml import etree

import confcommon as cc
from core import Stats, pmap
from data import to_xml, NC


def expected(e, n, sel):
    """Copy of e restricted to the selection, or None."""
    if e in sel:
        return [e.tag, e.text if len(e) == 0 else None,
                [whole(c) for c in e]]
    kids = cc.ENV.schema.kids(n)
    out = []
    keys = [k.tag for k in n.key_nodes] if n.kind == 'list' else []
    hit = any(x in sel for x in e.iterdescendants())
    if not hit:
        return None
    for c in e:
        if c.tag in keys:
            out.append(whole(c))
        else:
            x = expected(c, kids[c.tag], sel)
            if x is not None:
                out.append(x)
    return [e.tag, None, out]


def whole(e):
    return [e.tag, e.text if len(e) == 0 else None, [whole(c) for c in e]]


def work(item):
    from ncdiff import Config
    name, idx = item
    st = Stats()
    schema = cc.ENV.schema
    trees = [t for t in cc.SL[name]]
    cfg = cc.build(name)
    for i in idx:
        d, k, c = cfg[i]
        st.states += 1
        els = list(c.ele.iter())
        before = c.xml
        queries = [('/..', [])]
        for n in (1, 2) if not cc.THOROUGH else (1, 2, 3):
            for sub in itertools.combinations(range(len(els)), n):
                queries.append((
                    ' | '.join('(//*)[%d]' % (j + 1) for j in sub),
                    [els[j] for j in sub]))
        names = sorted({(e.tag, cc.prefix(e.tag)) for e in els[1:]})
        for tag, p in names:
            queries.append(('//' + p, [e for e in els if e.tag == tag]))
            queries.append(('//%s/..' % p, [
                e.getparent() for e in els if e.tag == tag]))
            queries.append(('//%s/text()' % p, []))
            queries.append(('//%s[.="1"]' % p, [
                e for e in els if e.tag == tag and
                ''.join(e.itertext()) == '1']))
        queries.append(('//*', els))
        queries.append(('/nc:config/*', list(c.ele)))
        for q, sel in queries:
            st.transitions += 1
            key = '{}|{}|{}'.format(name, to_xml(schema, d), q)
            case = {'config': c.xml, 'xpath': q}
            ns = dict({v: u for v, u in cc.NS.items()}, nc=NC)
            want = expected(c.ele, schema.top, set(sel)) or \
                [c.ele.tag, None, []]
            calls = [lambda: c.filter(q, namespaces=ns)]
            if 'nc:' not in q:
                calls.append(lambda: c.filter(q))
            for call in calls:
                try:
                    r = call()
                except Exception as e:
                    st.violation(key, 'filter({!r}) fails: {}\n{}'.format(
                        q, cc.short(e), c.xml), case)
                    continue
                st.traces += 1
                if whole(r.ele) != want:
                    st.violation(key, 'filter({!r}) of {}\ngives {}'.format(
                        q, c.xml, r.xml), case)
                if not (r <= c) or c.xml != before or \
                        not isinstance(r, Config):
                    st.violation(key, 'filter({!r}): the result is not a part '
                                 'of the config, or the config changed'
                                 .format(q), case)
        st.sample({'config': c.xml, 'queries': len(queries)})
    return st


def check(run):
    cc.setup(run.thorough)
    cc.NS = {p: ns for p, ns in cc.ENV.schema.modules.values()}
    rev = {u: p for p, u in cc.NS.items()}
    cc.prefix = lambda tag: '{}:{}'.format(
        rev[tag[1:].split('}')[0]], tag.split('}')[1])
    try:
        items = [(n, [i]) for n in cc.SL for i in range(len(cc.SL[n]))]
        for r in pmap(work, items):
            run.merge(r)
        run.extra['slices'] = {k: len(v) for k, v in cc.SL.items()}
        run.assumptions += ['queries: every set of at most {} elements, every '
                            'element name, parents, text and value queries'
                            .format(3 if run.thorough else 2)]
    finally:
        cc.teardown()
