"""C01  A delta applied by a conforming server turns src into dst."""
import itertools

import confcommon as cc
from core import Stats, pmap
from data import canon, ServerError, DecodeError
import data

OPTS = [dict(preferred_create=c, preferred_replace=r, preferred_delete=d)
        for c in ('merge', 'create', 'replace')
        for r in ('merge', 'replace') for d in ('delete', 'remove')] + \
       [dict(diff_type='replace', replace_depth=k, preferred_delete=d)
        for k in (0, 1, 2, 3) for d in ('delete', 'remove')]


def ostr(o):
    return ','.join('{}={}'.format(*x) for x in sorted(o.items()))


def one(name, d1, k1, c1, d2, k2, c2, o, st):
    from ncdiff import ConfigDelta
    case = {'slice': name, 'src': c1.xml, 'dst': c2.xml, 'options': o}
    key = '{}|{}|{}|{}'.format(name, data.to_xml(cc.ENV.schema, d1),
                               data.to_xml(cc.ENV.schema, d2), ostr(o))
    st.transitions += 1
    try:
        nc = ConfigDelta(config_src=c1, config_dst=c2, **o).nc
    except Exception as e:
        st.violation(key, 'no delta: {}'.format(cc.short(e)), case)
        return
    case['delta'] = cc_str(nc)
    try:
        r = cc.SRV.edit(d1, nc)
    except (ServerError, DecodeError) as e:
        st.violation(key, 'the server rejects the delta: {}\n{}'.format(
            e, case['delta']), case)
        return
    st.traces += 1
    if canon(cc.ENV.schema, r) != k2:
        st.violation(key, 'the delta does not lead to dst\nsrc {}\ndst {}\n'
                     'delta {}\nserver has {}'.format(
                         c1.xml, c2.xml, case['delta'],
                         data.to_xml(cc.ENV.schema, r)), case)


def cc_str(e):
    from lxml import etree
    return etree.tostring(e, encoding='unicode')


def work(item):
    name, idx = item
    st = Stats()
    cfg = cc.build(name)
    for i in idx:
        st.states += 1
        d1, k1, c1 = cfg[i]
        for d2, k2, c2 in cfg:
            for o in OPTS:
                one(name, d1, k1, c1, d2, k2, c2, o, st)
    st.sample({'slice': name, 'src': cfg[idx[0]][2].xml,
               'dst': cfg[-1][2].xml})
    return st


def check(run):
    cc.setup(run.thorough)
    try:
        for r in pmap(work, cc.work_items()):
            run.merge(r)
        run.extra['slices'] = {k: len(v) for k, v in cc.SL.items()}
        run.extra['options'] = len(OPTS)
        run.assumptions += [
            'reference server: RFC 6241 7.2 / RFC 7950 7.5-7.9, siblings '
            'processed in document order, creating a node of a case deletes '
            'the other cases',
            'default-operation merge']
    finally:
        cc.teardown()
