"""Different writings of one and the same config."""
import re
from xml.sax.saxutils import escape

from lxml import etree

import confcommon as cc
import data
from data import NC, to_element, _is_ref
from fixture import MAIN, AUG, TYPE

ALT = {MAIN: 'p1', AUG: 'p2', TYPE: 'p3'}
# prefixes and names of other modules
SWAP = {MAIN: 'mt', AUG: 'm-main', TYPE: 'm-aug'}


def tree(d, prefixed, pmap, order=None, keys_first=True, root='nc:config',
         declare='root'):
    """An element tree; every prefix in pmap is declared on the root, so
    references can always be written with a prefix."""
    schema = cc.ENV.schema
    style = data.Style(order=order, keys_first=keys_first)
    plain = to_element(schema, d, style)
    nsm = {p: u for u, p in pmap.items()}
    if root == 'nc:config':
        out = etree.Element('{%s}config' % NC, nsmap=dict(nsm, nc=NC))
        top = out
    elif root == 'data':
        out = top = etree.Element('{%s}data' % NC, nsmap=dict(nsm, nc=NC))
    elif root == 'reply':
        out = etree.Element('{%s}rpc-reply' % NC, nsmap=dict(nsm, nc=NC))
        out.set('message-id', '1')
        top = etree.SubElement(out, '{%s}data' % NC)
    elif root == 'edit-config':
        out = etree.Element('{%s}edit-config' % NC, nsmap=dict(nsm, nc=NC))
        top = etree.SubElement(out, '{%s}config' % NC)
    elif root == 'rpc':
        out = etree.Element('{%s}rpc' % NC, nsmap=dict(nsm, nc=NC))
        e = etree.SubElement(out, '{%s}edit-config' % NC)
        top = etree.SubElement(e, '{%s}config' % NC)

    def put(parent, src, n):
        if prefixed:
            e = etree.SubElement(parent, src.tag)
        else:
            e = etree.SubElement(parent, src.tag, nsmap={None: n.ns})
        if n.kind in ('leaf', 'leaf-list'):
            if src.text is not None and _is_ref(n):
                v = data.resolve(n, src)
                for u, p in pmap.items():
                    v = v.replace('{%s}' % u, p + ':')
                e.text = v
            else:
                e.text = src.text
        else:
            kids = schema.kids(n)
            for c in src:
                put(e, c, kids[c.tag])

    kids = schema.kids(schema.top)
    for c in plain:
        put(top, c, kids[c.tag])
    return out


def own_prefixes(d):
    """Every node declares the prefix it uses (or a default namespace),
    another one than its siblings, and no node uses what another declares."""
    schema = cc.ENV.schema
    plain = to_element(schema, d, data.Style())
    count = [0]

    def put(src, n):
        count[0] += 1
        i = count[0]
        p = '' if i % 3 == 0 else 'n%d' % i
        tag = (p + ':' if p else '') + n.name
        more = ''
        text = src.text or ''
        if n.kind in ('leaf', 'leaf-list') and src.text is not None and \
                _is_ref(n):
            text = data.resolve(n, src)
            for j, u in enumerate((MAIN, AUG, TYPE)):
                if '{%s}' % u in text:
                    text = text.replace('{%s}' % u, 'v%d%d:' % (i, j))
                    more += ' xmlns:v%d%d="%s"' % (i, j, u)
        kids = schema.kids(n)
        body = escape(text) if n.kind in ('leaf', 'leaf-list') else ''.join(
            put(c, kids[c.tag]) for c in src)
        return '<{0} xmlns{1}="{2}"{3}>{4}</{0}>'.format(
            tag, ':' + p if p else '', n.ns, more, body)

    kids = schema.kids(schema.top)
    return '<config xmlns="{}">{}</config>'.format(
        NC, ''.join(put(c, kids[c.tag]) for c in plain))


STD = {MAIN: 'mm', AUG: 'ma', TYPE: 'mt'}


def s(e):
    return etree.tostring(e, encoding='unicode')


def comments(e):
    """Comments between all elements and before text-free ends."""
    for x in list(e.iter()):
        if len(x):
            x.insert(0, etree.Comment(' c '))
            x.append(etree.Comment(' d '))
    return e


def requote(e, spaces=False):
    """The literals in instance-identifiers in the other kind of quotes, or
    with spaces in the predicates."""
    for x in e.iter():
        if x.text and x.text[0] == '/' and ('="' in x.text or
                                            "='" in x.text):
            if spaces:
                x.text = re.sub(r'\[([^][]*)=(.*?)\]', r'[ \1 = \2 ]', x.text)
            else:
                x.text = re.sub(
                    r'=\'([^\'"]*)\'|="([^\'"]*)"', lambda m: '="%s"' %
                    m.group(1) if m.group(1) is not None else "='%s'" %
                    m.group(2), x.text)
    return e


def variants(d):
    """[(label, thunk)]: each thunk gives an argument for Config()."""
    def ind(e):
        etree.indent(e, space='  ')
        return e
    more = []
    text = str(d)
    if '="' in text or "='" in text or "=\\'" in text:
        more = [
            ('other quotes', lambda: s(requote(tree(d, False, STD)))),
            ('spaces in predicates',
             lambda: s(requote(tree(d, False, STD), spaces=True)))]
    return more + [
        ('prefixed', lambda: s(tree(d, True, STD))),
        ('other prefixes', lambda: s(tree(d, True, ALT))),
        ('swapped prefixes', lambda: s(tree(d, True, SWAP))),
        ('default ns, other prefixes', lambda: s(tree(d, False, ALT))),
        ('own prefixes', lambda: own_prefixes(d)),
        ('indented text', lambda: s(ind(tree(d, False, STD)))),
        ('indented element', lambda: ind(tree(d, False, STD))),
        ('element', lambda: tree(d, True, ALT)),
        ('nodes in reverse order',
         lambda: s(tree(d, False, STD, order='reverse'))),
        ('system-ordered entries reversed',
         lambda: s(tree(d, False, STD, order='system-reverse'))),
        ('keys not first',
         lambda: s(tree(d, False, STD, keys_first=False))),
        ('comments', lambda: s(comments(tree(d, False, STD)))),
        ('data', lambda: s(tree(d, False, STD, root='data'))),
        ('rpc-reply', lambda: s(tree(d, False, STD, root='reply'))),
        ('edit-config', lambda: tree(d, True, STD, root='edit-config')),
        ('rpc', lambda: s(tree(d, False, ALT, root='rpc'))),
    ]
