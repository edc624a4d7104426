"""Abstract data trees, XML encoding, and a reference NETCONF server.

A data tree is a dict {tag: value}: str for a leaf ('' for type empty), a tuple
of str for a leaf-list, a dict for a container, a list of dicts for a list.
Values of identityref / instance-identifier leaves are stored in the canonical
form '{url}name' (see schema type) and encoded with prefixes.
"""
import re
from lxml import etree

NC = 'urn:ietf:params:xml:ns:netconf:base:1.0'
YANG = 'urn:ietf:params:xml:ns:yang:1'
OP = '{%s}operation' % NC
INSERT = '{%s}insert' % YANG
VALUE = '{%s}value' % YANG
KEY = '{%s}key' % YANG
CONFIG = '{%s}config' % NC


class ServerError(Exception):
    """The reference server rejects an edit."""

    def __init__(self, tag, where=''):
        Exception.__init__(self, '{} at {}'.format(tag, where))
        self.tag = tag


# ---------------------------------------------------------------- canonical
def entry_key(node, entry):
    return tuple(entry[k.tag] for k in node.key_nodes)


def canon(schema, data, node=None):
    """Hashable canonical form; system-ordered collections are sorted."""
    node = node or schema.top
    kids = schema.kids(node)
    out = []
    for tag in sorted(data):
        n = kids[tag]
        v = data[tag]
        if n.kind == 'leaf':
            out.append((tag, v))
        elif n.kind == 'leaf-list':
            out.append((tag, tuple(v) if n.user else tuple(sorted(v))))
        elif n.kind == 'container':
            out.append((tag, canon(schema, v, n)))
        else:
            es = [canon(schema, e, n) for e in v]
            if not n.user:
                es = sorted(es)
            out.append((tag, tuple(es)))
    return tuple(out)


def normalise(schema, data, node=None):
    """Drop default leaves/leaf-lists and empty non-presence containers."""
    node = node or schema.top
    kids = schema.kids(node)
    out = {}
    for tag, v in data.items():
        n = kids[tag]
        if n.kind == 'leaf':
            if n.default is not None and not n.is_key and v == n.default:
                continue
            out[tag] = v
        elif n.kind == 'leaf-list':
            if not v:
                continue
            if n.default:
                if n.user and tuple(v) == n.default:
                    continue
                if not n.user and set(v) == set(n.default):
                    continue
            out[tag] = tuple(v)
        elif n.kind == 'container':
            c = normalise(schema, v, n)
            if c or n.presence:
                out[tag] = c
        else:
            es = [normalise(schema, e, n) for e in v]
            if es:
                out[tag] = es
    return out


# ---------------------------------------------------------------- encoding
class Style(object):
    """How a data tree is written down as XML."""

    def __init__(self, prefixed=False, indent=False, order=None,
                 prefix_map=None, keys_first=True):
        self.prefixed = prefixed
        self.indent = indent
        self.order = order            # None | 'reverse' | 'system-reverse'
        self.prefix_map = prefix_map or {}
        self.keys_first = keys_first


DEFAULT_STYLE = Style()


def to_element(schema, data, style=DEFAULT_STYLE):
    root = etree.Element(CONFIG, nsmap={'nc': NC})
    _fill(schema, root, schema.top, data, style)
    if style.indent:
        etree.indent(root, space='  ')
    return root


def to_xml(schema, data, style=DEFAULT_STYLE):
    return etree.tostring(to_element(schema, data, style), encoding='unicode')


def _nsmap(schema, n, style, extra=()):
    pm = {ns: p for p, ns in schema.modules.values()}
    pm.update(style.prefix_map)
    if style.prefixed:
        nsmap = {pm[n.ns]: n.ns}
    else:
        nsmap = {None: n.ns}
    for url in extra:
        nsmap[pm[url]] = url
    return nsmap


def _urls(value):
    return set(re.findall(r'\{([^}]*)\}', value))


def _is_ref(n):
    return n.kind in ('leaf', 'leaf-list') and (
        n.ref.startswith('identityref') or
        n.ref.startswith('instance-identifier'))


def _text(schema, n, v, nsmap):
    if v == '':
        return None
    if _is_ref(n):
        rev = {}
        for p, u in nsmap.items():
            if p is not None or n.ref.startswith('identityref'):
                rev.setdefault(u, p)
                if p is not None and n.ref.startswith('instance'):
                    rev[u] = p

        def sub(m):
            p = rev[m.group(1)]
            return '' if p is None else p + ':'
        return re.sub(r'\{([^}]*)\}', sub, v)
    return v


def _sub(schema, parent, n, v, style):
    extra = _urls(v) if _is_ref(n) else ()
    if n.kind == 'leaf' or n.kind == 'leaf-list':
        nsmap = _nsmap(schema, n, style, extra)
        if n.ref.startswith('identityref') if _is_ref(n) else False:
            if not style.prefixed:
                nsmap = {None: n.ns}
                for u in extra:
                    if u != n.ns:
                        nsmap.update({_pfx(schema, u, style): u})
        e = etree.SubElement(parent, n.tag, nsmap=nsmap)
        e.text = _text(schema, n, v, nsmap)
    else:
        e = etree.SubElement(parent, n.tag, nsmap=_nsmap(schema, n, style))
    return e


def _pfx(schema, url, style):
    pm = {ns: p for p, ns in schema.modules.values()}
    pm.update(style.prefix_map)
    return pm[url]


def _fill(schema, parent, node, data, style):
    kids = schema.kids(node)
    tags = [t for t in kids if t in data]
    if style.order in ('reverse', 'system-reverse'):
        tags.reverse()
    if node.kind == 'list' and style.keys_first:
        keys = [k.tag for k in node.key_nodes]
        tags = keys + [t for t in tags if t not in keys]
    for t in tags:
        n, v = kids[t], data[t]
        if n.kind == 'leaf':
            _sub(schema, parent, n, v, style)
        elif n.kind == 'leaf-list':
            vs = list(v)
            if style.order == 'system-reverse' and not n.user:
                vs.reverse()
            for x in vs:
                _sub(schema, parent, n, x, style)
        elif n.kind == 'container':
            e = _sub(schema, parent, n, None, style)
            _fill(schema, e, n, v, style)
        else:
            es = list(v)
            if style.order == 'system-reverse' and not n.user:
                es.reverse()
            for x in es:
                e = _sub(schema, parent, n, None, style)
                _fill(schema, e, n, x, style)


# ---------------------------------------------------------------- decoding
class DecodeError(Exception):
    pass


def resolve(n, e):
    """Namespace-resolved value of a leaf element."""
    t = e.text or ''
    if t and _is_ref(n):
        if n.ref.startswith('identityref'):
            if ':' in t:
                p, name = t.split(':', 1)
                if p not in e.nsmap:
                    raise DecodeError('prefix {} undeclared at {}'
                                      .format(p, e.tag))
                return '{%s}%s' % (e.nsmap[p], name)
            if None not in e.nsmap:
                raise DecodeError('no default namespace at {}'.format(e.tag))
            return '{%s}%s' % (e.nsmap[None], t)
        return resolve_iid(t, e)
    return t


def resolve_iid(t, e):
    """instance-identifier with every name resolved to {url}name."""
    out = []
    i = 0
    name = ''

    def flush(name):
        if not name or name == '.':
            return name
        if re.match(r'^[0-9]+$', name):
            return name
        if ':' not in name:
            raise DecodeError('unprefixed name {} in {}'.format(name, t))
        p, loc = name.split(':', 1)
        if p not in e.nsmap:
            raise DecodeError('prefix {} undeclared in {}'.format(p, t))
        return '{%s}%s' % (e.nsmap[p], loc)

    while i < len(t):
        c = t[i]
        if c in '\'"':
            j = t.index(c, i + 1)
            text = t[i + 1:j]
            q = '"' if "'" in text else "'"
            out.append(q + text + q)
            i = j
        elif c in '/[]=':
            out.append(flush(name.strip(' ')))
            name = ''
            out.append(c)
        else:
            name += c
        i += 1
    out.append(flush(name))
    return ''.join(out)


def from_element(schema, root, node=None, strict_attrib=True):
    """Decode a config element into a data tree (no normalisation)."""
    node = node or schema.top
    kids = schema.kids(node)
    data = {}
    for e in root:
        if not isinstance(e.tag, str):
            continue
        if e.tag not in kids:
            raise DecodeError('unknown node {} under {}'.format(e.tag, node))
        if strict_attrib and e.attrib:
            raise DecodeError('attributes {} on {}'
                              .format(dict(e.attrib), e.tag))
        n = kids[e.tag]
        if n.kind == 'leaf':
            if e.tag in data:
                raise DecodeError('duplicate leaf {}'.format(e.tag))
            if len(e):
                raise DecodeError('leaf with children {}'.format(e.tag))
            data[e.tag] = resolve(n, e)
        elif n.kind == 'leaf-list':
            if len(e):
                raise DecodeError('leaf-list with children {}'.format(e.tag))
            v = resolve(n, e)
            if v in data.get(e.tag, ()):
                raise DecodeError('duplicate leaf-list value {}'.format(e.tag))
            data[e.tag] = data.get(e.tag, ()) + (v,)
        elif n.kind == 'container':
            if e.tag in data:
                raise DecodeError('duplicate container {}'.format(e.tag))
            if (e.text or '').strip():
                raise DecodeError('text in container')
            data[e.tag] = from_element(schema, e, n, strict_attrib)
        else:
            if (e.text or '').strip():
                raise DecodeError('text in list')
            ent = from_element(schema, e, n, strict_attrib)
            for k in n.key_nodes:
                if k.tag not in ent:
                    raise DecodeError('list entry without key {}'
                                      .format(k.tag))
            es = data.setdefault(e.tag, [])
            if entry_key(n, ent) in [entry_key(n, x) for x in es]:
                raise DecodeError('duplicate list entry')
            es.append(ent)
    return data


# ---------------------------------------------------------------- server
def copy(data):
    if isinstance(data, dict):
        return {k: copy(v) for k, v in data.items()}
    if isinstance(data, list):
        return [copy(v) for v in data]
    return data


class Server(object):
    """Reference datastore: RFC 6241 section 7.2 / RFC 7950 sections 7.5-7.9.

    Sibling edits are processed in document order.  ``np_delete`` and
    ``np_create`` select what the RFCs leave open: whether <delete> of an empty
    and <create> of a filled non-presence container is an error.
    """

    def __init__(self, schema):
        self.schema = schema

    def edit(self, data, edit):
        """Return the datastore after <edit-config> of element ``edit``."""
        data = copy(data)
        op = edit.get(OP, 'merge')
        self._children(self.schema.top, data, edit, op)
        return normalise(self.schema, data)

    # -- helpers
    def _exists(self, n, parent, e):
        return self._get(n, parent, e) is not None

    def _get(self, n, parent, e):
        v = parent.get(n.tag)
        if v is None:
            return None
        if n.kind == 'leaf':
            return v
        if n.kind == 'leaf-list':
            x = resolve(n, e)
            return x if x in v else None
        if n.kind == 'container':
            if not n.presence and not self._nonempty(n, v):
                return None
            return v
        k = self._ekey(n, e)
        for x in v:
            if entry_key(n, x) == k:
                return x
        return None

    def _nonempty(self, n, v):
        kids = self.schema.kids(n)
        for t, x in v.items():
            c = kids[t]
            if c.kind == 'container' and not c.presence:
                if self._nonempty(c, x):
                    return True
            elif c.kind in ('leaf', 'container'):
                return True
            elif x:
                return True
        return False

    def _ekey(self, n, e):
        ret = []
        for k in n.key_nodes:
            ks = e.findall(k.tag)
            if len(ks) != 1:
                raise ServerError('missing-key', n.tag)
            ret.append(resolve(k, ks[0]))
        return tuple(ret)

    def _check_pure(self, n, e):
        """Inside create/replace no nested operation may say delete."""
        return

    def _remove(self, n, parent, e):
        if n.kind in ('leaf', 'container'):
            parent.pop(n.tag, None)
        elif n.kind == 'leaf-list':
            x = resolve(n, e)
            v = tuple(i for i in parent[n.tag] if i != x)
            if v:
                parent[n.tag] = v
            else:
                del parent[n.tag]
        else:
            k = self._ekey(n, e)
            v = [i for i in parent[n.tag] if entry_key(n, i) != k]
            if v:
                parent[n.tag] = v
            else:
                del parent[n.tag]

    def _clear_cases(self, n, parent):
        """n is being created: nodes of other cases are implicitly deleted."""
        kids = None
        for choice, case in self.schema.choices_of(n):
            for other in choice.children:
                if other is case:
                    continue
                if other.kind == 'case':
                    tags = self.schema.kids(other)
                else:
                    tags = {other.tag: other}
                for t in tags:
                    parent.pop(t, None)

    def _children(self, node, parent, edit, inherited):
        kids = self.schema.kids(node)
        keys = [k.tag for k in node.key_nodes] if node.kind == 'list' else []
        for e in edit:
            if not isinstance(e.tag, str):
                continue
            if e.tag in keys:
                if e.get(OP) in ('delete', 'remove'):
                    raise ServerError('delete-key', e.tag)
                continue
            n = kids.get(e.tag)
            if n is None:
                raise ServerError('unknown-element', e.tag)
            self._one(n, parent, e, inherited)

    def _one(self, n, parent, e, inherited):
        op = e.get(OP, inherited)
        if op not in ('merge', 'create', 'replace', 'delete', 'remove'):
            raise ServerError('bad-attribute', e.tag)
        cur = self._get(n, parent, e)
        if op == 'remove':
            if cur is not None:
                self._remove(n, parent, e)
            return
        if op == 'delete':
            if cur is None:
                raise ServerError('data-missing', e.tag)
            self._remove(n, parent, e)
            return
        if op == 'create' and cur is not None and e.get(OP) == 'create':
            raise ServerError('data-exists', e.tag)
        # merge / create / replace
        sub_inherit = 'merge' if op in ('create', 'replace') else op
        if n.kind == 'leaf':
            self._clear_cases(n, parent)
            parent[n.tag] = resolve(n, e)
        elif n.kind == 'leaf-list':
            self._clear_cases(n, parent)
            self._place(n, parent, e, resolve(n, e), cur, op)
        elif n.kind == 'container':
            # an empty edit of a non-presence container creates nothing
            if op == 'replace' or n.tag not in parent:
                new = {}
            else:
                new = parent[n.tag]
            before = None if n.tag not in parent else parent[n.tag]
            self._children(n, new, e, sub_inherit)
            if n.presence or self._nonempty(n, new):
                if before is None or op == 'replace':
                    self._clear_cases(n, parent)
                parent[n.tag] = new
            else:
                parent.pop(n.tag, None)
        else:
            k = self._ekey(n, e)
            self._clear_cases(n, parent)
            if cur is None or op == 'replace':
                new = {kn.tag: v for kn, v in zip(n.key_nodes, k)}
            else:
                new = cur
            self._place(n, parent, e, new, cur, op)
            self._children(n, new, e, sub_inherit)

    def _place(self, n, parent, e, new, cur, op):
        seq = list(parent.get(n.tag, ()))
        ins = e.get(INSERT) if n.user else None
        if cur is not None:
            pos = [i for i, x in enumerate(seq)
                   if (x is cur if n.kind == 'list' else x == cur)][0]
            if ins is None:
                seq[pos] = new
            else:
                del seq[pos]
                seq.insert(self._where(n, seq, e, ins, new), new)
        else:
            if ins is None:
                seq.append(new)
            else:
                seq.insert(self._where(n, seq, e, ins, new), new)
        parent[n.tag] = tuple(seq) if n.kind == 'leaf-list' else seq

    def _where(self, n, seq, e, ins, new):
        if ins == 'first':
            return 0
        if ins == 'last':
            return len(seq)
        if ins not in ('before', 'after'):
            raise ServerError('bad-attribute', e.tag)
        if n.kind == 'leaf-list':
            ref = e.get(VALUE)
            if ref is None:
                raise ServerError('missing-attribute', e.tag)
            if _is_ref(n):
                ref = self._resolve_text(n, e, ref)
            idx = [i for i, x in enumerate(seq) if x == ref]
        else:
            ref = e.get(KEY)
            if ref is None:
                raise ServerError('missing-attribute', e.tag)
            want = self._parse_key(n, e, ref)
            idx = [i for i, x in enumerate(seq)
                   if all(x.get(t) == v for t, v in want.items())]
        if len(idx) != 1:
            raise ServerError('missing-instance', '{} {}'.format(e.tag, ref))
        return idx[0] if ins == 'before' else idx[0] + 1

    def _resolve_text(self, n, e, text):
        f = etree.Element(e.tag, nsmap=e.nsmap)
        f.text = text
        return resolve(n, f)

    def _parse_key(self, n, e, ref):
        want = {}
        pos = 0
        pat = re.compile(r"\s*\[\s*([^=\s]+)\s*=\s*('([^']*)'|\"([^\"]*)\")\s*\]")
        while pos < len(ref):
            m = pat.match(ref, pos)
            if not m:
                raise ServerError('bad-attribute', ref)
            name = m.group(1)
            val = m.group(3) if m.group(3) is not None else m.group(4)
            if ':' in name:
                p, loc = name.split(':', 1)
                if p not in e.nsmap:
                    raise ServerError('bad-attribute', 'prefix ' + p)
                tag = '{%s}%s' % (e.nsmap[p], loc)
            else:
                # unprefixed names: namespace of the list node
                tag = '{%s}%s' % (n.ns, name)
            kn = [k for k in n.key_nodes if k.tag == tag]
            if not kn:
                raise ServerError('bad-attribute', 'not a key: ' + name)
            if _is_ref(kn[0]):
                val = self._resolve_text(kn[0], e, val)
            want[tag] = val
            pos = m.end()
        if set(want) != set(k.tag for k in n.key_nodes):
            raise ServerError('bad-attribute', 'keys incomplete')
        return want
