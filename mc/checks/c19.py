"""C19  What a session sends is what was asked for: edits arrive at the server
with exactly their content, requests for models name exactly their roots, and
the target and the options are the ones given."""
import itertools

import core
import netsim
import confcommon as cc
from core import Stats, pmap, chunks
from lxml import etree
from netsim import q

# ---------------------------------------------------------------- end to end
DEV = SESSION = None
STORE = {}


def answer(rpc):
    """The server: running is STORE['running']."""
    op = rpc[0]
    name = etree.QName(op).localname
    if name in ('get', 'get-config'):
        f = op.find(q('filter'))
        roots = None if f is None else [e.tag for e in f]
        from data import to_element
        d = STORE['running']
        e = to_element(cc.ENV.schema, {
            k: v for k, v in d.items() if roots is None or k in roots})
        for c in e:
            if c.tag.endswith('}i'):
                x = cc.text_of(d)
                e = etree.fromstring(x)
                break
        return '<data>{}</data>'.format(''.join(
            etree.tostring(c, encoding='unicode') for c in e))
    if name == 'edit-config':
        from data import ServerError
        t = op.find(q('target'))
        STORE['target'] = etree.QName(t[0]).localname
        try:
            STORE['running'] = cc.SRV.edit(STORE['running'],
                                           op.find(q('config')))
        except ServerError as e:
            STORE['error'] = repr(e)
            return '<rpc-error><error-type>application</error-type>' \
                '<error-tag>{}</error-tag><error-severity>error' \
                '</error-severity></rpc-error>'.format('data-exists')
    return '<ok/>'


def start():
    global DEV, SESSION
    from fixture import caps_for
    caps = caps_for(cc.ENV.schema.modules) + [netsim.RUNNING]
    DEV, SESSION = netsim.device(caps, answer, cc.ENV.folder, ['m-main', 'm-two'])


def end_to_end(item):
    from ncdiff import Config
    from data import canon
    name, idx = item
    st = Stats()
    start()
    trees = cc.SL[name]
    schema = cc.ENV.schema
    cans = [canon(schema, d) for d in trees]
    objs = [Config(DEV, cc.text_of(d)) for d in trees]
    for i in idx:
        st.states += 1
        STORE.clear()
        STORE['running'] = trees[i]
        reply = DEV.get_config(models=['m-main', 'm-two'])
        src = DEV.extract_config(reply)
        if cc.dec(src.ele) != cans[i]:
            st.violation('get|{}|{}'.format(name, i), 'get_config and '
                         'extract_config give {} of {}'.format(
                             src, trees[i]), {'config': cc.text_of(trees[i])})
            continue
        for j in range(len(trees)):
            if j == i:
                continue
            try:
                delta = objs[j] - src
            except Exception as e:
                # C01 and C02
                st.count('no delta')
                continue
            forms = [('element', lambda: DEV.edit_config(
                target='running', config=delta.nc)),
                ('text', lambda: DEV.edit_config(
                    target='running', config=str(delta))),
                ('delta', lambda: DEV.edit_config(
                    delta, target='running'))]
            if j == (i + 1) % len(trees):
                forms.append(('delta by keyword', lambda: DEV.execute(
                    'edit_config', config=delta, target='running')))
            for label, send in forms:
                st.transitions += 1
                st.traces += 1
                STORE.clear()
                STORE['running'] = trees[i]
                del SESSION.sent[:]
                what = None
                try:
                    r = send()
                    if 'error' in STORE:
                        what = 'the server says ' + STORE['error']
                    elif len(SESSION.sent) != 1:
                        what = '{} messages'.format(len(SESSION.sent))
                    elif not r.ok:
                        what = 'the reply says not ok'
                    elif canon(schema, STORE['running']) != cans[j]:
                        what = 'the server ends in {}'.format(
                            STORE['running'])
                except Exception as e:
                    what = cc.short(e)
                if what:
                    st.violation(
                        'edit|{}|{}|{}|{}'.format(name, i, j, label),
                        '{}\nfrom {}\nto {}\ndelta ({}) {}'.format(
                            what, cc.text_of(trees[i]), cc.text_of(trees[j]),
                            label, delta),
                        {'src': cc.text_of(trees[i]),
                         'dst': cc.text_of(trees[j])})
        # the whole config as an edit
        for label, send in (
                ('positional', lambda: DEV.edit_config(
                    objs[i], target='running')),
                ('keyword', lambda: DEV.edit_config(
                    config=objs[i].ele, target='running')),
                ('config keyword', lambda: DEV.edit_config(
                    config=objs[i], target='running')),
                ('text', lambda: DEV.edit_config(
                    config=objs[i].xml, target='running')),
                ('by execute()', lambda: DEV.execute(
                    'edit_config', objs[i], target='running')),
                ('raw', lambda: DEV.edit_config(
                    config=cc.text_of(trees[i]), target='running'))):
            STORE.clear()
            STORE['running'] = {}
            st.transitions += 1
            try:
                send()
                got = canon(schema, STORE['running'])
            except Exception as e:
                got = cc.short(e)
            if got != cans[i] or 'error' in STORE:
                st.violation('config|{}|{}|{}'.format(name, i, label),
                             'edit_config of a whole config ({}) leads to {}'
                             .format(label, got),
                             {'config': cc.text_of(trees[i])})
    return st.dict()


# ---------------------------------------------------------------- the wire
def pieces():
    """XML of small elements, all combinations of a few features."""
    heads = ['a xmlns="urn:1"', 'p:a xmlns:p="urn:1"',
             'p:a xmlns:p="urn:1" xmlns="urn:2"',
             'a xmlns="urn:1" xmlns:nc="urn:other"',
             'a xmlns="urn:1" xmlns:unused="urn:3"']
    kids = ['<b/>', '<b> x </b>', '<b>1</b><b>2</b>', '<b>&lt;&amp;"\'</b>',
            '<b>\u00e9\u4e2d</b>', '<b at="1"/>',
            '<b xmlns:z="urn:3" z:at="1">z:v</b>',
            '<b xmlns="urn:2"><c/></b>', '<z:b xmlns:z="urn:2">z:id</z:b>',
            '<b xmlns:z="urn:2"><c xmlns:z="urn:3">z:id</c></b>',
            '<b><c><d><e>deep</e></d><d/></c></b>',
            '<!-- comment --><b/>', '<b><!-- comment --></b>',
            '<?pi data?><b/>', '<b>  </b>', '<b>\n  <c/>\n</b>']
    out = []
    for h in heads:
        for k in [''] + kids:
            out.append((h, k))
        for k1, k2 in itertools.permutations(kids, 2):
            out.append((h, k1 + k2))
    res = []
    for h, k in out:
        name = h.split(' ')[0]
        res.append('<{}>{}</{}>'.format(h, k, name))
    return res


def shape(e, ns):
    """An element without comments: tag, attributes, text, children, and the
    prefixes a value in it may use."""
    kids = [c for c in e if isinstance(c.tag, str)]
    text = e.text or ''
    if len(kids) != len(e):
        # comments split a text
        text = ''
    if kids and not text.strip():
        text = ''
    return (e.tag, dict(e.attrib), text, [shape(c, ns) for c in kids],
            {p: u for p, u in e.nsmap.items()} if ns else None)


def covers(sent, given, ns=True):
    """The same element, every prefix still meaning the same."""
    if sent[:3] != given[:3] or len(sent[3]) != len(given[3]):
        return False
    if ns and any(sent[4].get(p) != u for p, u in given[4].items()):
        return False
    return all(covers(s, g, ns) for s, g in zip(sent[3], given[3]))


def wire(texts):
    st = Stats()
    dev, session = netsim.device(netsim.BASE + [
        netsim.CANDIDATE, netsim.VALIDATE,
        'urn:ietf:params:netconf:capability:xpath:1.0'], netsim.ok,
        cc.ENV.folder)
    for t in texts:
        st.states += 1
        given = etree.fromstring(t)
        conf = '<nc:config xmlns:nc="{}">{}</nc:config>'.format(netsim.NC, t)
        cele = etree.fromstring(conf)
        filt = '<nc:filter xmlns:nc="{}" type="subtree">{}</nc:filter>'.format(
            netsim.NC, t)
        cases = [
            ('dispatch', lambda: dev.dispatch(given), lambda r: r[0]),
            ('edit_config element', lambda: dev.edit_config(config=cele),
             lambda r: r[0].find(q('config'))[0]),
            ('edit_config text', lambda: dev.edit_config(config=conf),
             lambda r: r[0].find(q('config'))[0]),
            ('get filter', lambda: dev.get(
                filter=('subtree', etree.fromstring(t))),
             lambda r: r[0].find(q('filter'))[0]),
            ('get filter element', lambda: dev.get(
                filter=etree.fromstring(filt)),
             lambda r: r[0].find(q('filter'))[0]),
            ('get_config filter', lambda: dev.get_config(
                filter=('subtree', t)),
             lambda r: r[0].find(q('filter'))[0]),
        ]
        before = etree.tostring(given)
        for label, send, part in cases:
            st.transitions += 1
            st.traces += 1
            del session.sent[:]
            try:
                send()
                if len(session.sent) != 1:
                    bad = '{} messages'.format(len(session.sent))
                else:
                    got = part(session.sent[0])
                    # ncclient itself drops prefixes in filters
                    bad = None if covers(shape(got, True), shape(
                        etree.fromstring(t), True), 'filter' not in label) \
                        else \
                        'sends {}'.format(etree.tostring(
                            session.sent[0], encoding='unicode'))
            except Exception as e:
                bad = cc.short(e)
            if bad is None and etree.tostring(given) != before:
                bad = 'changes the element it was given'
            if bad:
                st.violation('wire|{}|{}'.format(label, t),
                             '{} of {}: {}'.format(label, t, bad),
                             {'element': t, 'operation': label})
                given = etree.fromstring(t)
                cele = etree.fromstring(conf)
    return st.dict()


# ---------------------------------------------------------------- models
# kinds of root nodes: (YANG, data roots that are config, other data roots)
ROOTS = [
    ('container c{} {{ leaf x {{ type string; }} }}', ['c'], []),
    ('container s{} {{ config false; leaf x {{ type string; }} }}', [],
     ['s']),
    ('list l{} {{ key k; leaf k {{ type string; }} }}', ['l'], []),
    ('leaf f{} {{ type string; }} leaf g{} {{ config false; type string; }}',
     ['f'], ['g']),
    ('choice h{} {{ case a {{ leaf ha{} {{ type string; }} }} case b {{ '
     'choice hc {{ leaf hb{} {{ type string; }} }} }} }}', ['ha', 'hb'], []),
    ('choice j{} {{ config false; leaf ja{} {{ type string; }} }}', [],
     ['ja']),
    ('rpc r{} {{ input {{ leaf i {{ type string; }} }} }} '
     'notification n{} {{ leaf m {{ type string; }} }}', [], []),
]


def schemas(thorough):
    """{module: (YANG text, config roots, state roots)}: each kind of root
    alone, all pairs of kinds, none and all."""
    out = {}
    sets = [()] + [(i,) for i in range(len(ROOTS))] + list(
        itertools.combinations(range(len(ROOTS)), 2)) + [
        tuple(range(len(ROOTS)))]
    for n, s in enumerate(sets):
        name = 'x{}'.format(n)
        body, rw, ro = [], [], []
        for i in s:
            y, a, b = ROOTS[i]
            body.append(y.replace('{}', str(n)).replace('{{', '{')
                        .replace('}}', '}'))
            rw += ['{urn:%s}%s%d' % (name, x, n) for x in a]
            ro += ['{urn:%s}%s%d' % (name, x, n) for x in b]
        out[name] = ('module {0} {{ namespace "urn:{0}"; prefix {0}; revision '
                     '2020-01-01; {1} }}'.format(name, ' '.join(body)), rw, ro)
    return out


def models(item):
    folder, thorough, names = item
    from ncdiff.errors import ModelMissing
    st = Stats()
    S = schemas(thorough)
    caps = netsim.BASE + [netsim.CANDIDATE] + [
        'urn:{0}?module={0}&revision=2020-01-01'.format(m) for m in S]
    dev, session = netsim.device(caps, lambda r: '<data/>', folder, names)
    asks = [[m] for m in names] + [list(p) for p in
                                   itertools.permutations(names, 2)] + \
        [names]
    missing = [m for m in S if m not in names][0]
    for ask in asks:
        st.states += 1
        forms = [ask, tuple(ask), set(ask)] + (
            [ask[0]] if len(ask) == 1 else [])
        for form in forms:
            for op, want in (
                    ('get', [r for m in ask for r in S[m][1] + S[m][2]]),
                    ('get_config', [r for m in ask for r in S[m][1]])):
                kws = ({}, {'source': 'candidate'}, {'filter': 'junk'}) \
                    if op == 'get_config' else ({}, {'filter': 'junk'})
                for kw, named in itertools.product(kws, (False, True)):
                    st.transitions += 1
                    st.traces += 1
                    del session.sent[:]
                    try:
                        if named:
                            dev.execute(op, models=form, **kw)
                        else:
                            getattr(dev, op)(models=form, **kw)
                        err = None
                    except ValueError as e:
                        err = e
                    except Exception as e:
                        err = cc.short(e)
                    bad = None
                    if not want:
                        if not isinstance(err, ValueError) or session.sent:
                            bad = 'no error'
                    elif err is not None:
                        bad = 'error {}'.format(err)
                    elif len(session.sent) != 1:
                        bad = '{} messages'.format(len(session.sent))
                    else:
                        o = session.sent[0][0]
                        f = o.findall(q('filter'))
                        tags = [e.tag for e in f[0]] if len(f) == 1 else None
                        # (the attribute has no namespace, RFC 6241 6.1)
                        typ = f[0].get('type') if len(f) == 1 else None
                        src = o.find(q('source'))
                        if tags is None or sorted(tags) != sorted(want):
                            bad = 'filter {}, should be {}'.format(tags, want)
                        elif typ != 'subtree':
                            bad = 'filter type {}'.format(typ)
                        elif any(len(e) or e.text or e.attrib
                                 for e in f[0]):
                            bad = 'filter nodes are not empty'
                        elif op == 'get_config' and (
                                src is None or len(src) != 1 or src[0].tag !=
                                q(kw.get('source', 'running'))):
                            bad = 'source'
                    if bad:
                        st.violation('models|{}|{}|{}|{}'.format(
                            op, sorted(ask), type(form).__name__,
                            sorted(kw) + [named]),
                            '{}(models={!r}, {}){}: {}'.format(
                                op, form, kw,
                                ' by execute()' if named else '', bad),
                            {'models': ask, 'operation': op,
                             'yang': [S[m][0] for m in ask]})
        # a model that is not loaded: an error, and nothing is sent
        for op in ('get', 'get_config'):
            for pos in range(len(ask) + 1):
                st.transitions += 1
                del session.sent[:]
                a2 = ask[:pos] + [missing] + ask[pos:]
                try:
                    getattr(dev, op)(models=a2)
                    bad = 'no error'
                except ModelMissing:
                    bad = None
                except Exception as e:
                    bad = cc.short(e)
                if session.sent:
                    bad = 'a message is sent'
                if bad:
                    st.violation('missing|{}|{}'.format(op, a2),
                                 '{}(models={}): {}'.format(op, a2, bad),
                                 {'models': a2, 'operation': op})
    return st.dict()


# ---------------------------------------------------------------- options
def options():
    from ncclient.operations import MissingCapabilityError
    st = Stats()
    allcaps = [netsim.CANDIDATE, netsim.RUNNING, netsim.VALIDATE,
               netsim.ROLLBACK]
    conf = '<nc:config xmlns:nc="{}"/>'.format(netsim.NC)
    from ncdiff import Config
    for n in range(len(allcaps) + 1):
        for caps in itertools.combinations(allcaps, n):
            st.states += 1
            dev, session = netsim.device(netsim.BASE + list(caps), netsim.ok,
                                         cc.ENV.folder, [])
            cfg = Config(dev)
            for target, dflt, test, err, form in itertools.product(
                    (None, 'running', 'candidate', 'startup'),
                    (None, 'merge', 'replace', 'none'),
                    (None, 'set', 'test-then-set'),
                    (None, 'stop-on-error', 'rollback-on-error'),
                    ('text', 'Config')):
                st.transitions += 1
                st.traces += 1
                kw = {}
                if target:
                    kw['target'] = target
                if dflt:
                    kw['default_operation'] = dflt
                if test:
                    kw['test_option'] = test
                if err:
                    kw['error_option'] = err
                t = target or ('running' if netsim.RUNNING in caps and
                               netsim.CANDIDATE not in caps else 'candidate')
                fail = (test and netsim.VALIDATE not in caps) or (
                    err == 'rollback-on-error' and
                    netsim.ROLLBACK not in caps) or (
                    t == 'candidate' and netsim.CANDIDATE not in caps) or (
                    t == 'startup')
                del session.sent[:]
                bad = None
                try:
                    if form == 'Config':
                        dev.edit_config(cfg, **kw)
                    else:
                        dev.edit_config(config=conf, **kw)
                    if len(session.sent) != 1:
                        bad = '{} messages'.format(len(session.sent))
                    else:
                        want = [('target', t), ('error-option', err),
                                ('test-option', test),
                                ('default-operation', dflt), ('config', '')]
                        want = sorted((k, v) for k, v in want
                                      if v is not None)
                        got = []
                        for e in session.sent[0][0]:
                            k = etree.QName(e).localname
                            got.append((k, etree.QName(e[0]).localname
                                        if k == 'target' else e.text or ''))
                        if sorted(got) != want:
                            bad = 'sends {}, should be {}'.format(got, want)
                except MissingCapabilityError as e:
                    bad = None if fail and not session.sent else cc.short(e)
                except Exception as e:
                    bad = cc.short(e)
                if bad:
                    st.violation('options|{}|{}|{}'.format(
                        [c.split(':')[-2] for c in caps],
                        sorted(kw.items()), form),
                        'edit_config({}) on {}: {}'.format(
                            kw, caps, bad), {'caps': caps, 'kwargs': kw})
    return st.dict()


def positional():
    """Arguments given by position, and no models at all."""
    from ncdiff import Config
    from fixture import caps_for
    st = Stats()
    conf = '<nc:config xmlns:nc="{}"/>'.format(netsim.NC)
    flt = ('subtree', '<a xmlns="urn:1"/>')
    opts = ['xml', 'running', 'merge', 'set', 'stop-on-error']
    names = [None, 'target', 'default-operation', 'test-option',
             'error-option']
    for caps in ([netsim.CANDIDATE, netsim.RUNNING, netsim.VALIDATE],
                 [netsim.RUNNING, netsim.VALIDATE],
                 [netsim.CANDIDATE, netsim.VALIDATE]):
        dev, session = netsim.device(
            netsim.BASE + [c for c in caps_for(cc.ENV.schema.modules)
                           if 'candidate' not in c] + caps, netsim.ok,
            cc.ENV.folder, ['m-main'])
        calls = []
        for source in ('running', 'candidate', 'startup'):
            for args in ((), (flt,)):
                for models in (None, ['m-main']):
                    if args and models:
                        continue
                    calls.append(('get_config', (source,) + args,
                                  {'models': models} if models else {},
                                  {'source': source},
                                  1 if args or models else 0))
        calls += [('get_config', (), {}, {'source': 'running'}, 0),
                  ('get_config', (), {'filter': flt}, {'source': 'running'},
                   1),
                  ('get', (), {}, {}, 0), ('get', (flt,), {}, {}, 1)]
        for n in range(len(opts) + 1):
            for target in ('running', 'candidate'):
                if n < 2 and target == 'running' or n >= 2 and (
                        target == 'running' and netsim.RUNNING not in caps or
                        target == 'candidate' and
                        netsim.CANDIDATE not in caps):
                    continue
                o = opts[:1] + [target] + opts[2:]
                want = {k: v for k, v in list(zip(names, o))[:n] if k}
                want.setdefault('target', 'candidate' if netsim.CANDIDATE in
                                caps else 'running')
                for c in (Config(dev), conf):
                    calls.append(('edit_config', (c,) + tuple(o[:n]), {},
                                  want, None))
        for op, args, kw, want, filters in calls:
            for how in ('method', 'execute'):
                st.states += 1
                st.transitions += 1
                st.traces += 1
                del session.sent[:]
                try:
                    if how == 'method':
                        getattr(dev, op)(*args, **kw)
                    else:
                        dev.execute(op, *args, **kw)
                    bad = None
                except Exception as e:
                    bad = cc.short(e)
                if bad is None:
                    got = {}
                    for e in session.sent[0][0]:
                        k = etree.QName(e).localname
                        if k not in ('filter', 'config'):
                            got[k] = etree.QName(e[0]).localname if len(e) \
                                else e.text
                    n = len(session.sent[0][0].findall(q('filter')))
                    if len(session.sent) != 1 or got != want or \
                            filters not in (None, n):
                        bad = 'sends {} and {} filters, should be {}'.format(
                            got, n, want)
                if bad:
                    st.violation(
                        'positional|{}|{}|{}|{}|{}'.format(
                            len(caps), op, [a if isinstance(a, str) else
                                            type(a).__name__ for a in args],
                            sorted(kw), how),
                        '{}({}, {}) by {} on {}: {}'.format(
                            op, args, kw, how, caps, bad), {'caps': caps})
        for op, none in itertools.product(('get', 'get_config'),
                                          ([], (), set())):
            st.transitions += 1
            del session.sent[:]
            try:
                getattr(dev, op)(models=none)
                bad = 'no error'
            except ValueError:
                bad = None
            except Exception as e:
                bad = cc.short(e)
            if session.sent:
                bad = 'everything is requested'
            if bad:
                st.violation('nomodels|{}|{!r}'.format(op, none),
                             '{}(models={!r}): {}'.format(op, none, bad), {})
    return st.dict()


def job(item):
    kind, arg = item
    if kind == 'pairs':
        return end_to_end(arg)
    if kind == 'wire':
        return wire(arg)
    if kind == 'models':
        return models(arg)
    if kind == 'positional':
        return positional()
    return options()


def check(run):
    import os
    env = cc.setup(run.thorough)
    folder = core.scratch('mc-c19-')
    try:
        S = schemas(run.thorough)
        for m, s in S.items():
            with open(os.path.join(folder, m + '.yang'), 'w') as f:
                f.write(s[0])
        # compile once, so that the workers read the caches
        netsim.device(netsim.BASE + [
            'urn:{0}?module={0}&revision=2020-01-01'.format(m) for m in S],
            netsim.ok, folder, list(S))
        items = [('options', None), ('positional', None)]
        items += [('pairs', i) for i in cc.work_items()]
        items += [('wire', c) for c in chunks(pieces(), 16)]
        names = [m for m in S if m != 'x0'][:-1] + ['x0']
        last = list(S)[-1]
        step = 6
        groups = [names[i:i + step] + ([last] if i == 0 else [])
                  for i in range(0, len(names), step)]
        items += [('models', (folder, run.thorough, g)) for g in groups]
        for r in pmap(job, items):
            run.merge(r)
    finally:
        cc.teardown()
        core.rmtree(folder)
    run.assumptions += [
        'the reply arrives at once; ncclient itself is trusted',
        'default-operation merge, target running in the end-to-end part']
