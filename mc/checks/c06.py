"""C06  No operation changes its operands, and no result shares state with
them: histories of operations on two configs, watched for side effects."""
import copy

from lxml import etree

import confcommon as cc
import styles
from checks.c01 import OPTS
from core import Stats, pmap
from data import to_xml, OP


def wreck(ele):
    """Overwrite everything reachable from a result."""
    for e in list(ele.iter()):
        if isinstance(e.tag, str):
            e.text = 'WRECK'
            e.set('wreck', 'yes')
    for e in list(ele):
        ele.remove(e)


def snap(c):
    return (etree.tostring(c.ele), c.remove_deprecated, id(c.device))


def ops(c1, c2):
    """(label, thunk) of every public operation on a pair of configs."""
    from ncdiff import Config, ConfigDelta
    dev = cc.ENV.dev
    yield '==', lambda: c1 == c2
    yield '<', lambda: (c1 < c2, c1 > c2, c1 != c2)
    yield 'bool', lambda: bool(c1)
    yield 'str', lambda: (str(c1), c1.xml, repr(c1))
    yield 'ns', lambda: (c1.ns, c1.models, c1.roots)
    yield 'validate', lambda: c1.validate_config()
    yield 'trim', lambda: c1.trim_defaults()
    yield '+', lambda: c1 + c2
    yield '-', lambda: c1 - c2
    yield '-(c1-c2)', lambda: -(c1 - c2)
    yield 'c1-(c1-c2)', lambda: c1 - (c1 - c2)
    yield '(c1-c2)+c2', lambda: (c1 - c2) + c2
    yield 'bool(c1-c2)', lambda: bool(c1 - c2)
    yield 'str(c1-c2)', lambda: (str(c1 - c2), (c1 - c2).ns,
                                 (c1 - c2).models, (c1 - c2).roots)
    for o in (OPTS[0], OPTS[5], OPTS[11], OPTS[12], OPTS[14], OPTS[16]):
        yield 'nc %s' % o, lambda: ConfigDelta(c1, c2, **o).nc
    yield 'nc random', lambda: ConfigDelta(c1, c2, random_depth=1,
                                           random_seed=3).nc
    yield 'Config(ele)', lambda: Config(dev, c1.ele)
    yield 'Config(config)', lambda: Config(dev, c1)
    yield 'Config(config, remove_deprecated)', lambda: Config(
        dev, c1, True, True)
    yield 'Config(xml)', lambda: Config(dev, c1.xml)
    yield 'filter', lambda: c1.filter('//mm:*[text()="1"]')
    yield 'filter none', lambda: c1.filter('//mm:nothing')
    yield 'filter all', lambda: c1.filter('/nc:config/*',
                                          namespaces={'nc': cc.data_nc})
    yield 'xpath', lambda: [dev.get_xpath(e) for e in c1.xpath('//mm:*')
                            if e.getparent() is not None]
    yield 'schema', lambda: [c1.get_schema_node(e).tag
                             for e in c1.xpath('//mm:*')]


def elements_of(r):
    from ncdiff import Config, ConfigDelta
    if isinstance(r, Config):
        return [r.ele]
    if isinstance(r, ConfigDelta):
        return [r.nc]
    if etree.iselement(r):
        return [r]
    return []


def bad_edits(c2):
    """Payloads whose application fails half-way."""
    dev = cc.ENV.dev
    for i, e in enumerate(list(c2.ele.iter())[1:]):
        if dev.get_schema_node(e).get('is_key'):
            continue
        for op in ('create', 'delete', 'bogus'):
            x = copy.deepcopy(c2.ele)
            list(x.iter())[i + 1].set(OP, op)
            yield x


def work(item):
    from ncdiff import ConfigDelta
    name, idx = item
    st = Stats()
    cfg = cc.build(name)
    for i in idx:
        st.states += 1
        d1, k1, c1 = cfg[i]
        for d2, k2, c2 in cfg:
            key0 = '{}|{}|{}'.format(name, to_xml(cc.ENV.schema, d1),
                                     to_xml(cc.ENV.schema, d2))
            s1, s2 = snap(c1), snap(c2)

            def same(label):
                st.transitions += 1
                if (snap(c1), snap(c2)) != (s1, s2):
                    st.violation(key0 + '|' + label,
                                 '{} changes an operand\nc1 {}\n-> {}\nc2 {}'
                                 '\n-> {}'.format(
                                     label, s1[0].decode(), c1.xml,
                                     s2[0].decode(), c2.xml),
                                 {'c1': s1[0].decode(), 'c2': s2[0].decode(),
                                  'operation': label})
                    return False
                return True

            ok = True
            for label, th in ops(c1, c2):
                r = th()
                if not same(label):
                    ok = False
                    break
                for e in elements_of(r):
                    wreck(e)
                if not same(label + ', then overwriting the result'):
                    ok = False
                    break
            if not ok:
                return st
            # a delta is a fixed transition: asking twice gives the same, and
            # what was handed out cannot change it
            d = c2 - c1
            x1 = etree.tostring(d.nc)
            wreck(d.nc)
            x2 = etree.tostring(d.nc)
            st.transitions += 1
            if x1 != x2:
                st.violation(key0 + '|nc twice', 'delta.nc is not stable: {} '
                             '{}'.format(x1, x2), {})
            for e in bad_edits(c2) if i % 4 == 0 or cc.THOROUGH else ():
                before = etree.tostring(e)
                for th in (lambda: c1 + e,
                           lambda: ConfigDelta(config_src=c1, delta=e)):
                    try:
                        r = th()
                    except Exception:
                        r = None
                        st.count('failed_operations')
                    if not same('applying ' + before.decode()):
                        return st
                    if etree.tostring(e) != before:
                        st.violation(key0 + '|edit', 'the payload is changed '
                                     'by applying it: {}\n->{}'.format(
                                         before, etree.tostring(e)), {})
                    if r is not None:
                        for x in elements_of(r):
                            wreck(x)
                        if not same('applying {}, then overwriting the '
                                    'result'.format(before.decode())):
                            return st
                        if etree.tostring(e) != before:
                            st.violation(key0 + '|edit2', 'overwriting the '
                                         'result changes the payload', {})
    st.traces = st.transitions
    st.sample({'slice': name, 'c1': cfg[idx[0]][2].xml})
    return st


def check(run):
    cc.setup(run.thorough)
    cc.data_nc = styles.NC
    names = list(cc.SL) if run.thorough else [
        'top', 'topchoice', 'aug', 'fleaf', 'cont', 'list', 'olist', 'oboth',
        'nord', 'zent', 'two',
        'keydef', 'choice', 'nchoice', 'dchoice', 'idref', 'mix']
    try:
        for r in pmap(work, cc.work_items(names, per=16)):
            run.merge(r)
        run.extra['slices'] = {k: len(cc.SL[k]) for k in names}
        run.extra['operations'] = [x[0] for x in ops(None, None)]
    finally:
        cc.teardown()
