"""C09  Names and paths: every config node has exactly its schema node, its
xpath leads back to it, and tag notations convert into each other."""
import functools
import itertools

from lxml import etree

import confcommon as cc
import core
from core import Stats, pmap
from data import to_xml


def tag_types():
    from ncdiff import Tag
    return {'XPATH': Tag.XPATH, 'LXML_XPATH': Tag.LXML_XPATH,
            'JSON_NAME': Tag.JSON_NAME, 'JSON_PREFIX': Tag.JSON_PREFIX,
            'LXML_ETREE': Tag.LXML_ETREE, 'YTOOL': Tag.YTOOL}


def mods():
    return [(name, p, ns) for name, (p, ns) in cc.ENV.schema.modules.items()]


def ns_of(tag):
    return tag[1:].split('}')[0], tag.split('}')[1]


def render(tag, parent_ns, typ):
    """One path step in a notation (the oracle)."""
    url, local = ns_of(tag)
    name, prefix = [(m[0], m[1]) for m in mods() if m[2] == url][0]
    full = {'XPATH': prefix + ':', 'LXML_XPATH': prefix + ':',
            'JSON_NAME': name + ':', 'JSON_PREFIX': prefix + ':',
            'LXML_ETREE': '{%s}' % url, 'YTOOL': prefix + ':'}[typ]
    if typ not in ('LXML_XPATH', 'LXML_ETREE') and parent_ns == url:
        full = ''
    return full + local


def quote(v):
    v = v or ''
    return "'%s'" % v if '"' in v else '"%s"' % v


def want_path(chain, typ, instance):
    """chain: [(element, schema node)] from the root."""
    ret = ''
    root = chain[0][1]
    cur = root.ns if typ == 'YTOOL' else ''
    for i, (e, n) in enumerate(chain):
        last = i == len(chain) - 1
        ret += '/' + render(e.tag, cur, typ)
        cur = ns_of(e.tag)[0]
        if typ == 'YTOOL' or last and not instance:
            continue
        if n.kind == 'leaf-list':
            ret += '[text()=%s]' % quote(e.text) if e.text else '[.=""]'
        elif n.kind == 'list':
            for k in n.key_nodes:
                ret += '[%s=%s]' % (render(k.tag, cur, typ),
                                    quote(e.find(k.tag).text))
    return (root.mod if typ == 'YTOOL' else '') + ret


def schema_chain(s):
    """Data-node tags from the module root to a real schema node."""
    out = []
    while s is not None and s.get('type') not in ('module',) and \
            s.getparent() is not None:
        if s.get('type') not in ('choice', 'case'):
            out.insert(0, s.tag)
        s = s.getparent()
    return out


def nodes_of(c):
    out = []

    def walk(e, n, chain):
        kids = cc.ENV.schema.kids(n)
        for x in e:
            ch = chain + [(x, kids[x.tag])]
            out.append(ch)
            walk(x, kids[x.tag], ch)
    walk(c.ele, cc.ENV.schema.top, [])
    return out


def work(item):
    name, idx = item
    st = Stats()
    dev = cc.ENV.dev
    types = tag_types()
    cfg = cc.build(name)
    nsmap = {p: ns for _, p, ns in mods()}
    for i in idx:
        d, k, c = cfg[i]
        st.states += 1
        for chain in nodes_of(c):
            e, n = chain[-1]
            key = '{}|{}|{}'.format(name, to_xml(cc.ENV.schema, d),
                                    '/'.join(x.tag for x, _ in chain))
            case = {'config': c.xml, 'node': e.tag}

            def bad(what):
                st.violation(key + '|' + what[:40], what + '\n' + c.xml, case)
            st.transitions += 1
            try:
                s = dev.get_schema_node(e)
                if s is None or s.get('type') != n.kind or \
                        schema_chain(s) != [x.tag for x, _ in chain]:
                    bad('schema node of {} is {} {}'.format(
                        e.tag, s.tag if s is not None else None,
                        schema_chain(s) if s is not None else ''))
                    continue
                if c.get_schema_node(e) is not s or \
                        dev.get_schema_node(e) is not s:
                    bad('schema node lookup not stable')
                model = chain[0][1].mod
                if dev.get_model_name(e) != model or \
                        dev.get_model_name(s) != model:
                    bad('model name of {}'.format(e.tag))
                stm = dev.get_statement(e)
                if model != 'm-main' and stm is None:
                    # only the model compiled last has statements
                    pass
                elif stm is None or (stm.arg, stm.keyword) != (n.name, n.kind) \
                        or stm.i_module.i_modulename != n.mod:
                    bad('statement of {} is {}'.format(e.tag, stm))
                q = any('"' in (x.text or '') and "'" in (x.text or '')
                        for y, _ in chain for x in [y] + list(y))
                for t in types:
                    for inst in (True, False):
                        got = dev.get_xpath(e, type=types[t], instance=inst)
                        if t == 'LXML_ETREE':
                            continue
                        if q:
                            # no one way to write it: judged by evaluation
                            continue
                        want = want_path(chain, t, inst)
                        if got != want and \
                                got.replace("'", '"') != \
                                want.replace("'", '"'):
                            bad('get_xpath({}, instance={}) is {} want {}'
                                .format(t, inst, got, want))
                p = dev.get_xpath(e, type=types['LXML_XPATH'])
                r = c.xpath('/nc:config' + p, namespaces=dict(
                    nsmap, nc=c.ele.tag[1:].split('}')[0]))
                if r != [e]:
                    bad('xpath {} leads to {}'.format(p, r))
                p = dev.get_xpath(e, type=types['LXML_XPATH'], instance=False)
                r = c.xpath('/nc:config' + p, namespaces=dict(
                    nsmap, nc=c.ele.tag[1:].split('}')[0]))
                if r != [x for x in e.getparent() if x.tag == e.tag]:
                    bad('xpath {} (no instance) leads to {}'.format(p, r))
                st.traces += 1
            except Exception as ex:
                bad('lookup of {} fails: {}'.format(e.tag, cc.short(ex)))
        st.sample({'config': c.xml})
    return st


def schema_lookup(st):
    """Every schema node, with and without config, and unknown children."""
    from ncdiff.errors import ConfigError
    dev = cc.ENV.dev
    types = tag_types()
    schema = cc.ENV.schema
    for n in schema.all_nodes():
        chain = []
        x = n
        while x is not schema.top:
            if x.kind not in ('choice', 'case'):
                chain.insert(0, x)
            x = x.parent
        root = etree.Element('{%s}config' % cc.NCNS)
        e = root
        for x in chain:
            e = etree.SubElement(e, x.tag)
        st.states += 1
        st.transitions += 1
        s = dev.get_schema_node(e)
        key = 'schema|' + '/'.join(x.tag for x in chain)
        if s is None or s.get('type') != n.kind or \
                schema_chain(s) != [x.tag for x in chain]:
            st.violation(key, 'schema node of {} is {}'.format(
                key, None if s is None else schema_chain(s)), {})
            continue
        st.traces += 1
        # a schema node is its own schema node's path
        p = dev.get_xpath(s, type=types['LXML_XPATH'], instance=False)
        r = dev.models[chain[0].mod].tree.xpath(
            p, namespaces={q: ns for _, q, ns in mods()})
        full = []
        x = n
        while x is not schema.top:
            full.insert(0, x)
            x = x.parent
        want = ''.join('/' + render(x.tag, '', 'LXML_XPATH') for x in full)
        if p != want:
            st.violation(key + '|path', 'get_xpath of the schema node of {} '
                         'is {} want {}'.format(key, p, want), {})
        # unknown children are unknown
        kids = schema.kids(n)
        for tag in ['{%s}bogus' % n.ns, '{urn:x}a'] + [
                y.tag for y in schema.all_nodes()]:
            if tag in kids:
                continue
            c = etree.SubElement(e, tag)
            st.transitions += 1
            try:
                got = dev.get_schema_node(c)
            except ConfigError:
                got = None
            if got is not None:
                st.violation(key + '|' + tag, '{} is no child of {}, yet its '
                             'schema node is {}'.format(tag, key,
                                                        schema_chain(got)),
                             {})
            e.remove(c)


def conversions(st):
    from ncdiff import Tag
    dev = cc.ENV.dev
    types = tag_types()
    ms = mods()
    col = {'LXML_ETREE': 2, 'JSON_NAME': 0}
    for (st_name, src), (dt_name, dst) in itertools.product(
            types.items(), types.items()):
        sc = col.get(st_name, 1)
        for m in ms:
            for dns in [''] + [x[sc] for x in ms]:
                forms = [('{%s}%s' if sc == 2 else '%s:%s') % (m[sc], 'leaf')]
                if st_name not in ('LXML_ETREE', 'LXML_XPATH') and \
                        dns == m[sc]:
                    forms.append('leaf')
                for tag in forms:
                    st.transitions += 1
                    parent = [x[2] for x in ms if x[sc] == dns]
                    want = render('{%s}leaf' % m[2],
                                  parent[0] if parent else '', dt_name)
                    key = 'convert|{}|{}|{}|{}'.format(st_name, dt_name, dns,
                                                       tag)
                    try:
                        got = dev.convert_tag(dns, tag, src=src, dst=dst)
                    except Exception as e:
                        got = cc.short(e)
                    st.traces += 1
                    if got != (m[sc], want):
                        st.violation(key, 'convert_tag({!r}, {!r}, {}, {}) is '
                                     '{} want {}'.format(
                                         dns, tag, st_name, dt_name, got,
                                         (m[sc], want)), {})
    for i, j in itertools.product((Tag.NAME, Tag.PREFIX, Tag.NAMESPACE),
                                  repeat=2):
        for m in ms:
            st.transitions += 1
            if dev.convert_ns(m[i], src=i, dst=j) != m[j]:
                st.violation('ns|{}|{}|{}'.format(i, j, m), 'convert_ns', {})
        st.transitions += 1
        try:
            r = dev.convert_ns('unknown', src=i, dst=j)
            st.violation('ns|{}|{}|unknown'.format(i, j),
                         'convert_ns of an unknown namespace: ' + str(r), {})
        except ValueError:
            pass
    # namespaces of the protocol have no model
    for url, p in (('urn:ietf:params:xml:ns:netconf:base:1.0', 'nc'),
                   ('urn:ietf:params:xml:ns:yang:1', 'yang')):
        for (st_name, src), (dt_name, dst) in itertools.product(
                types.items(), types.items()):
            sc, dc = col.get(st_name, 1), col.get(dt_name, 1)
            if sc == 0:
                continue
            st.transitions += 1
            st.traces += 1
            tag = '{%s}x' % url if sc == 2 else p + ':x'
            want = (tag[1:-2] if sc == 2 else p,
                    '{%s}x' % url if dc == 2 else p + ':x')
            try:
                got = dev.convert_tag('', tag, src=src, dst=dst)
            except ValueError:
                got = None
            if got != (want if dc else None):
                st.violation('special|{}|{}|{}'.format(st_name, dt_name, tag),
                             'convert_tag({!r}, {}, {}) is {} want {}'.format(
                                 tag, st_name, dt_name, got, want), {})
    for tag in ('{urn:unknown}x', 'leaf'):
        for dst in types.values():
            st.transitions += 1
            try:
                r = dev.convert_tag('', tag, dst=dst)
            except ValueError:
                continue
            st.violation('unknown|' + tag, 'convert_tag({!r}) gives {} instead '
                         'of ValueError'.format(tag, r), {})


def defaults(st):
    """default_in_use(): every schema node, against the YANG rules."""
    dev = cc.ENV.dev
    schema = cc.ENV.schema

    def use(n):
        out = []
        for c in n.children:
            if c.kind in ('leaf', 'leaf-list') and c.default not in (None, ()):
                out.append(path(c))
            elif c.kind == 'choice' and c.default:
                for k in c.children:
                    if k.name == c.default:
                        out.append(path(k))
                        out += use(k)
            elif c.kind == 'container' and not c.presence:
                out += use(c)
        return out

    def path(n):
        p = []
        while n is not schema.top:
            p.insert(0, n.tag)
            n = n.parent
        return tuple(p)

    def path_mod(n):
        while n.parent is not schema.top:
            n = n.parent
        return n.mod

    def spath(s):
        p = []
        while s.getparent() is not None:
            p.insert(0, s.tag)
            s = s.getparent()
        return tuple(p)

    def walk(n):
        for c in n.children:
            if c.kind in ('container', 'list', 'case'):
                s = dev.models[path_mod(c)].tree.find('/'.join(path(c)))
                st.transitions += 1
                got = sorted(spath(x) for x in dev.default_in_use(s))
                if got != sorted(use(c)):
                    st.violation('default|{}'.format(path(c)),
                                 'default_in_use({}) is {} want {}'.format(
                                     path(c), got, use(c)), {})
            walk(c)
    walk(schema.top)


def bodies(depth, pairs):
    """Contents of a node, as tuples of (kind, option, content)."""
    return [()] + [(i,) for i in items_of(depth, pairs)] + [
        t for i in items_of(depth if pairs else 0, pairs)
        for t in ((i, ('leaf', 'D', ())), (('leaf', 'D', ()), i))
        if pairs or i[0] != 'leaf']


@functools.lru_cache(None)
def items_of(depth, pairs):
    out = [('leaf', None, ()), ('leaf', 'D', ()), ('leaf-list', 'D', ())]
    if depth:
        inner = bodies(depth - 1, pairs)
        for kind, options in (('container', (None, 'presence')),
                              ('list', (None,))):
            out += [(kind, o, b) for o in options for b in inner]
        for default in (None, 0, 1):
            out += [('choice', default, (('case', None, b), ('leaf', 'D', ())))
                    for b in inner]
            # without a case statement
            out += [('choice', default, (i, ('leaf', 'D', ())))
                    for i in items_of(depth - 1, pairs)]
    return out


def emit(item, name, tag, yang, use):
    """YANG text of an item; returns the paths whose defaults are in use if
    the parent exists, and records the ones below."""
    kind, o, body = item
    at = name + (tag,)
    ret = []
    yang.append('{} {} {{'.format(kind, tag))
    if kind in ('leaf', 'leaf-list'):
        yang.append('type string;')
        if o == 'D':
            yang += ['default "{}";'.format(x)
                     for x in ('1', '2')[:1 + (kind == 'leaf-list')]]
            ret = [at]
    elif kind == 'choice':
        if o is not None:
            yang.append('default {}{};'.format(tag, 'ab'[o]))
        for n, i in enumerate(body):
            below = at + (tag + 'ab'[n],) * (i[0] != 'case')
            inner = emit(i, below, tag + 'ab'[n], yang, use)
            if i[0] != 'case':
                use[below] = inner
            if n == o:
                ret = [at + (tag + 'ab'[n],)] + use[at + (tag + 'ab'[n],)]
    else:
        if o == 'presence':
            yang.append('presence p;')
        if kind == 'list':
            yang.append('config false;')
        for n, i in enumerate(body):
            ret += emit(i, at, '{}{}'.format(tag, n), yang, use)
        use[at] = ret
        if kind in ('case', 'list') or o == 'presence':
            ret = []
    yang.append('}')
    return ret


def shapes(st, thorough):
    """default_in_use() on all nestings of choices, cases and containers."""
    import types
    from fixture import make_device
    depths = [(2, True)] + ([(3, False)] if thorough else [])
    todo = list(dict.fromkeys(i for d, p in depths for i in items_of(d, p)))
    mods = {'a': ('a', 'urn:a'), 'b': ('b', 'urn:b')}
    texts, uses = {}, {}
    for m in mods:
        yang = ['module {0} {{ yang-version 1.1; namespace urn:{0}; prefix {0};'
                .format(m)]
        if m == 'b':
            yang.append('import a { prefix a; }')
        yang.append('revision 2024-01-01; container top { }' if m == 'a' else
                    'augment /a:top {')
        uses[m] = {}
        for n, i in enumerate(todo if m == 'a' else todo[::5]):
            yang.append('container x{}{} {{'.format(m, n))
            at = ('x{}{}'.format(m, n),)
            uses[m][at] = emit(i, at, 'i', yang, uses[m])
            yang.append('}')
        yang.append('}' * (1 + (m == 'b')))
        texts[m] = '\n'.join(yang)
    schema = types.SimpleNamespace(modules=mods, main='a')
    folder = core.scratch('mc-c09-')
    try:
        dev = make_device(schema, folder, ['a'], texts)
    finally:
        core.rmtree(folder)

    def name(s, top):
        p = []
        while s is not top:
            p.insert(0, s.tag.split('}')[1])
            s = s.getparent()
        return tuple(p)

    tree = dev.models['a'].tree
    for m, top in (('a', tree), ('b', tree.find('{urn:a}top'))):
        seen = {}
        for s in top.iterdescendants():
            if s.get('type') in ('container', 'case', 'list'):
                seen[name(s, top)] = s
        for at, want in uses[m].items():
            st.transitions += 1
            st.states += 1
            if at not in seen:
                st.violation('shape|{}|{}'.format(m, at),
                             '{} is not in the schema'.format(at), {})
                continue
            try:
                got = sorted(name(x, top)
                             for x in dev.default_in_use(seen[at]))
            except Exception as e:
                got = '{}: {}'.format(type(e).__name__, e)
            if got != sorted(want):
                st.violation(
                    'shape|{}|{}'.format(m, at),
                    'default_in_use({}) is {} want {}, schema {}'.format(
                        at, got, want,
                        todo[int(at[0][2:]) * (5 if m == 'b' else 1)]), {})


def check(run):
    cc.setup(run.thorough)
    from data import NC
    cc.NCNS = NC
    try:
        items = [(n, c) for n in cc.SL
                 for c in cc.chunks(range(len(cc.SL[n])), 4)]
        for r in pmap(work, items):
            run.merge(r)
        st = Stats(limit=50)
        schema_lookup(st)
        conversions(st)
        defaults(st)
        shapes(st, run.thorough)
        run.merge(st.dict())
        run.extra['slices'] = {k: len(v) for k, v in cc.SL.items()}
    finally:
        cc.teardown()
