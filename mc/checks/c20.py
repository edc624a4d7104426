"""C20  Config extracted from a reply is exactly the configuration in it, and
every namespace of a reply has a prefix of its own to address it with."""
import itertools
import os

import core
import netsim
import confcommon as cc
from core import Stats, pmap, chunks
from lxml import etree
from fixture import prod, wrap, m, a, MAIN, subsets
import checks.c05 as c05


# ---------------------------------------------------------------- extraction
def strip(schema, data, node=None):
    """Without state."""
    node = node or schema.top
    kids = schema.kids(node)
    out = {}
    for tag, v in data.items():
        n = kids[tag]
        if not n.config:
            continue
        if n.kind == 'container':
            v = strip(schema, v, n)
        elif n.kind == 'list':
            v = [strip(schema, e, n) for e in v]
        out[tag] = v
    return out


def universe(thorough):
    ent = [dict({m('k'): k}, **x) for k in '1'
           for x in prod(MAIN, v=[None, '1'], cnt=[None, '1'])]
    st = prod(MAIN, cur=[None, '1'], dep=[None, '1'], obs=[None, '1'],
              oper=[None, '1'],
              ops=[None, {}] + [x for x in prod(
                  MAIN, ctr=[None, '1'], x=[None, '1']) if x],
              sli=[None] + [[e] for e in ent] + [
                  [e, {m('k'): '2', m('cnt'): '3'}] for e in ent],
              nokey=[None, [{m('x'): '1'}], [{m('x'): '1'}, {m('x'): '1'}]])
    out = wrap('st', st)
    # state below presence, in deep containers, in lists
    out += wrap('st', prod(
        MAIN, spp=[None, {}] + [x for x in prod(
            MAIN, x=[None, '1'], sc=[None, '1'], si=[None, {m('sc'): '1'}])
            if x],
        sd=[None] + [{m('sd1'): {m('sd2'): x}} for x in prod(
            MAIN, x=[None, '1'], sll=[None, ('1', '2')]) if x],
        sro=[None, {m('x'): '1'}, {m('y'): {m('z'): '1'}}]))
    l3 = [None, [{m('k'): '1'}], [{m('k'): '1', m('x'): '1'}, {m('k'): '2'}]]
    out += wrap('st', [{m('sll2'): [dict({m('k'): '1'}, **x)] + y}
                       for x in prod(MAIN, sc=[None, {m('x'): '1'},
                                               {m('x'): '1', m('y'): '1'}],
                                     sp=[None, {}, {m('y'): '1'}], sl3=l3)
                       for y in ([], [{m('k'): '2', m('sc'): {m('y'): '1'}}])])
    # together with other containers
    out += [dict(d, **{m('c'): c}) for d in wrap('st', prod(
        MAIN, cur=[None, '1'], oper=[None, '1'],
        ops=[None, {m('ctr'): '1'}, {m('x'): '2'}]))
        for c in ({}, {m('a'): '1'}, {m('d'): '7'}, {m('d'): '8'})]
    return out


DEV = None
NOW = None


def serve(rpc):
    return '<data>{}</data>'.format(NOW)


def inner(text):
    e = etree.fromstring(text)
    return ''.join(etree.tostring(c, encoding='unicode') for c in e)


def extraction(trees):
    global NOW
    from data import canon, from_element
    st = Stats()
    schema = cc.ENV.schema
    from fixture import caps_for
    dev, session = netsim.device(caps_for(schema.modules), serve,
                                 cc.ENV.folder, ['m-main'])
    for d in trees:
        st.states += 1
        both = inner(cc.text_of(d))
        conf = inner(cc.text_of(strip(schema, d)))
        for layout in (False, True):
            t1, t2 = both, conf
            if layout:
                e = etree.fromstring('<x>{}</x>'.format(both))
                etree.indent(e)
                t1 = '<!-- all -->' + inner(etree.tostring(e))
            for dep in (False, True):
                st.transitions += 1
                st.traces += 1
                want = canon(schema, c05.oracle(strip(schema, d), schema.top,
                                                True, dep))
                bad = None
                try:
                    NOW = t1
                    reply = dev.get(models='m-main')
                    raw = reply.xml
                    c1 = dev.extract_config(reply, remove_deprecated=dep)
                    if reply.xml != raw:
                        bad = 'the reply is changed'
                    before = etree.tostring(reply._root)
                    NOW = t2
                    c2 = dev.extract_config(dev.get_config(models='m-main'),
                                            remove_deprecated=dep)
                    got = canon(schema, from_element(schema, c1.ele))
                    if got != want:
                        bad = 'get gives the config {}'.format(c1)
                    elif cc.dec(c2.ele) != want:
                        bad = 'get-config gives the config {}'.format(c2)
                    elif not (c1 == c2 and c2 == c1 and c1 <= c2 and
                              not c1 != c2 and not c1 < c2):
                        bad = 'configs of get and get-config are not equal'
                    elif bool(c1 - c2) or bool(c2 - c1):
                        bad = 'configs of get and get-config have a delta'
                    elif bool(c1) != bool(want):
                        bad = 'bool of the config is {}'.format(bool(c1))
                except Exception as e:
                    bad = cc.short(e)
                if bad:
                    st.violation('extract|{}|{}|{}'.format(both, layout, dep),
                                 '{}\nfrom {}\nremove_deprecated={}'.format(
                                     bad, t1, dep),
                                 {'reply': t1, 'remove_deprecated': dep})
    return st.dict()


# ---------------------------------------------------------------- prefixes
# (module, prefix, namespace): equal prefixes, prefixes that look generated,
# prefixes of special namespaces
MODULES = [('n1', 'p', 'urn:n1'), ('n2', 'p', 'urn:n2'),
           ('n3', 'ns00', 'urn:n3'), ('n4', 'nc', 'urn:n4'),
           ('n5', 'ok', 'urn:n5'), ('n6', 'p', 'urn:n6')]
UNKNOWN = ['urn:u1', 'urn:u2']


def documents():
    """Replies that use every subset of the namespaces, flat and nested."""
    urls = [x[2] for x in MODULES] + UNKNOWN
    out = []
    for k in range(len(urls) + 1):
        for s in itertools.combinations(urls, k):
            out.append((s, ''.join('<r{} xmlns="{}"/>'.format(i, u)
                                   for i, u in enumerate(s))))
            if 2 <= k <= 3:
                for p in itertools.permutations(s):
                    t = ''
                    for i, u in reversed(list(enumerate(p))):
                        t = '<p{0}:r{0} xmlns:p{0}="{1}">{2}</p{0}:r{0}>' \
                            .format(i, u, t)
                    out.append((s, t))
            if k == 1:
                # the namespace is only used by an attribute or a value
                out.append((s, '<r0 xmlns="urn:n5" xmlns:q="{}" q:a="1"/>'
                            .format(s[0])))
    return out


def prefixes(item):
    folder, docs = item
    global NOW
    from ncdiff import Config
    from ncclient.transport.notify import Notification
    st = Stats()
    dev, session = netsim.device(netsim.BASE, serve, folder)
    own = {u: p for n, p, u in MODULES}
    count = {}
    for n, p, u in MODULES:
        count[p] = count.get(p, 0) + 1
    for urls, text in docs:
        st.states += 1
        NOW = text
        cases = [('reply', lambda: dev.get())]
        note = '<notification xmlns="urn:ietf:params:xml:ns:netconf:' \
            'notification:1.0">{}</notification>'.format(text)
        cases.append(('notification', lambda: notification(dev, note)))
        for label, get in cases:
            st.transitions += 1
            st.traces += 1
            bad = None
            try:
                r = get()
                root = r._root if label == 'reply' else r._root_ele
                ns = r.ns
                used = set()
                for e in root.iter():
                    used |= set(e.nsmap.values())
                if set(ns.values()) != used or len(ns) != len(used):
                    bad = 'prefixes {} for {}'.format(ns, sorted(used))
                else:
                    rev = {u: p for p, u in ns.items()}
                    for u in urls:
                        if u in own and count[own[u]] == 1 and \
                                own[u] not in ('nc', 'ns00') and \
                                rev[u] != own[u]:
                            bad = '{} has prefix {}'.format(u, rev[u])
                    # each element can be addressed
                    for e in root.iter():
                        qn = etree.QName(e)
                        got = r.xpath('//{}:{}'.format(
                            rev[qn.namespace], qn.localname))
                        want = [x for x in root.iter(e.tag)]
                        if got != want:
                            bad = 'xpath of {} gives {}'.format(e.tag, got)
                    if str(r) is None or etree.fromstring(
                            str(r).encode()).tag != root.tag:
                        bad = 'str'
            except Exception as e:
                bad = cc.short(e)
            if bad:
                st.violation('ns|{}|{}'.format(label, text),
                             '{} {}: {}'.format(label, text, bad),
                             {'content': text})
    return st.dict()


def notification(dev, text):
    from ncclient import manager
    from ncclient.transport.notify import Notification
    n = Notification(text)
    real = manager.Manager.take_notification
    manager.Manager.take_notification = lambda self, block=True, \
        timeout=None: n
    try:
        return dev.take_notification()
    finally:
        manager.Manager.take_notification = real


def job(item):
    return extraction(item[1]) if item[0] == 'x' else prefixes(item[1])


def check(run):
    cc.setup(run.thorough)
    folder = core.scratch('mc-c20-')
    try:
        for n, p, u in MODULES:
            with open(os.path.join(folder, n + '.yang'), 'w') as f:
                f.write('module {} {{ namespace "{}"; prefix {}; revision '
                        '2020-01-01; }}'.format(n, u, p))
        netsim.device(netsim.BASE, netsim.ok, folder)
        U = universe(run.thorough)
        items = [('x', c) for c in chunks(U, 32)]
        items += [('n', (folder, c)) for c in chunks(documents(), 8)]
        for r in pmap(job, items):
            run.merge(r)
    finally:
        cc.teardown()
        core.rmtree(folder)
