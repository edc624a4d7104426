"""A tiny schema DSL.  One description yields the YANG text given to the real
compiler *and* the schema used by the independent reference models."""
import re


class Node(object):
    kind = None

    def __init__(self, name, mod=None, status=None, config=True):
        self.name = name
        self.mod = mod            # None: same module as parent
        self.status = status
        self.config = config
        self.parent = None
        self.children = []

    # set by Schema
    ns = None
    case = None                   # enclosing Case (or None)

    @property
    def tag(self):
        return '{%s}%s' % (self.ns, self.name)

    def __repr__(self):
        return '<{} {}>'.format(self.kind, self.name)


class Leaf(Node):
    kind = 'leaf'

    def __init__(self, name, type='string', default=None, extra='', ref=None,
                 typed=False, **kw):
        Node.__init__(self, name, **kw)
        self.type = type
        self.ref = ref or type    # type that decides about prefixes in values
        self.typed = typed        # the default is that of the type
        self.default = default
        self.extra = extra
        self.is_key = False


class LeafList(Node):
    kind = 'leaf-list'

    def __init__(self, name, type='string', user=False, default=(), ref=None,
                 typed=False, **kw):
        Node.__init__(self, name, **kw)
        self.type = type
        self.ref = ref or type
        self.typed = typed
        self.user = user
        self.default = tuple(default)


class Cont(Node):
    kind = 'container'

    def __init__(self, name, *children, presence=False, **kw):
        Node.__init__(self, name, **kw)
        self.children = list(children)
        self.presence = presence


class List(Node):
    kind = 'list'

    def __init__(self, name, keys, *children, user=False, **kw):
        Node.__init__(self, name, **kw)
        self.keys = keys.split()
        self.key_text = keys
        self.children = list(children)
        self.user = user


class Choice(Node):
    kind = 'choice'

    def __init__(self, name, *cases, default=None, mandatory=False, **kw):
        Node.__init__(self, name, **kw)
        self.children = list(cases)
        self.default = default
        self.mandatory = mandatory


class Case(Node):
    kind = 'case'

    def __init__(self, name, *children, **kw):
        Node.__init__(self, name, **kw)
        self.children = list(children)


class Schema(object):
    """A set of modules.  ``roots`` belong to ``main`` or to the module they
    name; a node with ``mod=X`` anywhere below is emitted by module X as an
    augment."""

    def __init__(self, main, roots, modules, header=None):
        # modules: {name: (prefix, ns)}
        self.main = main
        self.modules = modules
        self.header = header or {}
        self.roots = roots
        self.top = Cont('config')
        self.top.children = roots
        self.top.ns = None
        self.top.mod = main
        self._link(self.top, None, main)

    def _link(self, node, case, mod):
        for c in node.children:
            if c.mod is None:
                c.mod = mod
            c.ns = self.modules[c.mod][1]
            c.parent = node
            c.case = node if node.kind == 'case' else None
            self._link(c, c.case, c.mod)
        if node.kind == 'list':
            for c in node.children:
                if c.name in node.keys and c.mod == node.mod:
                    c.is_key = True
            node.key_nodes = [
                [c for c in node.children
                 if c.name == k and c.mod == node.mod][0]
                for k in node.keys]

    # ---- data-node view (choice/case transparent) -------------------------
    def kids(self, node):
        if not hasattr(node, '_kids'):
            ret = {}
            for c in node.children:
                if c.kind in ('choice', 'case'):
                    ret.update(self.kids(c))
                else:
                    ret[c.tag] = c
            node._kids = ret
        return node._kids

    def find(self, path):
        """'c/l/k' -> data node (local names, main module first)."""
        node = self.top
        for name in path.split('/'):
            cand = [n for n in self.kids(node).values() if n.name == name]
            node = cand[0]
        return node

    def all_nodes(self, node=None):
        node = node or self.top
        for c in self.kids(node).values():
            yield c
            for x in self.all_nodes(c):
                yield x

    def choices_of(self, node):
        """[(choice, case)] enclosing a data node, innermost first."""
        ret = []
        n = node.parent
        while n is not None and n.kind in ('case', 'choice'):
            if n.kind == 'case':
                ret.append((n.parent, n))
            n = n.parent
        return ret

    # ---- YANG text --------------------------------------------------------
    def texts(self):
        return {m: self._module(m) for m in self.modules}

    def _module(self, mod):
        prefix, ns = self.modules[mod]
        out = ['module %s {' % mod, '  yang-version 1.1;',
               '  namespace "%s";' % ns, '  prefix %s;' % prefix]
        imports = [m for m in self.header.get(mod, {}).get('imports', [])]
        for m in imports:
            out.append('  import %s { prefix %s; }'
                       % (m, self.modules[m][0]))
        out.append('  revision 2024-01-01;')
        out.append(self.header.get(mod, {}).get('text', ''))
        for r in self.roots:
            if r.mod == mod:
                self._emit(r, mod, 1, out)
        for target, nodes in self._augments(self.top, mod):
            out.append('  augment "%s" {' % target)
            for n in nodes:
                self._emit(n, mod, 2, out)
            out.append('  }')
        out += self.header.get(mod, {}).get('tail', [])
        out.append('}')
        return '\n'.join(out) + '\n'

    def _path(self, node):
        parts = []
        while node is not None and node is not self.top:
            parts.append('%s:%s' % (self.modules[node.mod][0], node.name))
            node = node.parent
        return '/' + '/'.join(reversed(parts))

    def _augments(self, node, mod):
        ret = []
        mine = [c for c in node.children if c.mod == mod]
        if node is not self.top and node.mod != mod and mine:
            ret.append((self._path(node), mine))
        for c in node.children:
            if c.mod != mod or node is self.top:
                ret += self._augments(c, mod)
        return ret

    def _emit(self, n, mod, depth, out):
        if n.mod != mod:
            return
        ind = '  ' * depth
        out.append('%s%s %s {' % (ind, n.kind, n.name))
        ind2 = ind + '  '
        if n.status:
            out.append(ind2 + 'status %s;' % n.status)
        if not n.config:
            out.append(ind2 + 'config false;')
        if n.kind == 'leaf':
            out.append(ind2 + self._type(n.type))
            if n.default is not None and not n.typed:
                out.append(ind2 + 'default "%s";' % re.sub(
                    r'\{([^}]*)\}', lambda m: [
                        p + ':' for p, u in self.modules.values()
                        if u == m.group(1)][0], n.default))
            if n.extra:
                out.append(ind2 + n.extra)
        elif n.kind == 'leaf-list':
            out.append(ind2 + self._type(n.type))
            if n.user:
                out.append(ind2 + 'ordered-by user;')
            for d in n.default if not n.typed else ():
                out.append(ind2 + 'default "%s";' % d)
        elif n.kind == 'container':
            if n.presence:
                out.append(ind2 + 'presence "yes";')
        elif n.kind == 'list':
            if n.keys:
                out.append(ind2 + 'key "%s";' % n.key_text)
            if n.user:
                out.append(ind2 + 'ordered-by user;')
        elif n.kind == 'choice':
            if n.default:
                out.append(ind2 + 'default %s;' % n.default)
            if n.mandatory:
                out.append(ind2 + 'mandatory true;')
        for c in n.children:
            self._emit(c, mod, depth + 1, out)
        out.append(ind + '}')

    @staticmethod
    def _type(t):
        if '{' in t:
            return 'type ' + t
        return 'type %s;' % t
