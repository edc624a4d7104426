import importlib.util
spec = importlib.util.spec_from_file_location('b3',
                                              '/verif/tools/seeds/batch3.py')
b3 = importlib.util.module_from_spec(spec)
spec.loader.exec_module(b3)
L, N, H, R, NET = b3.L, b3.N, b3.H, b3.R, b3.NET

SEEDS = [
 dict(id='s26-add-returns-destination', property='C06', lib=L,
  needs='a delta added to the very config object it was computed from, and a '
        'change of the result afterwards',
  breaks='the result is the destination object, so changing the result '
         'changes the destination and the delta',
  edits=[('config.py', '''        elif isinstance(other, ConfigDelta):
            if ConfigCompatibility(self, other).is_compatible:
                return Config''', '''        elif isinstance(other, ConfigDelta):
            if self is other.config_src:
                return other.config_dst
            if ConfigCompatibility(self, other).is_compatible:
                return Config''')],
  demo=H + '''
a, b = cfg('<a>1</a>'), cfg('<a>2</a>')
before = b.xml
r = a + (b - a)
check(r == b, r.xml)
r.ele[0][0].text = '3'
check(b.xml == before, 'the destination has changed: ' + b.xml)
'''),
 dict(id='s27-names-before-prefixes', property='C04', lib=L,
  needs='an identityref value whose prefix is declared in the config and is '
        'the name of another module at the same time',
  breaks='the value is looked up in the wrong module',
  edits=[('ref.py', '''            if match.group(1) in node.nsmap:
                return node.nsmap[match.group(1)], match.group(2)
            elif match.group(1) in [ns[0] for ns in self.device.namespaces]:
                name_to_url = {ns[0]: ns[2] for ns in self.device.namespaces}
                return name_to_url[match.group(1)], match.group(2)
            else:
                raise ConfigError("unknown prefix '{}' in the node with tag " \\
                                  "{}" \\
                                  .format(match.group(1), node.tag))
        else:
            # RFC7950 section 9.10.3''', '''            name_to_url = {ns[0]: ns[2] for ns in self.device.namespaces}
            if match.group(1) in name_to_url:
                return name_to_url[match.group(1)], match.group(2)
            elif match.group(1) in node.nsmap:
                return node.nsmap[match.group(1)], match.group(2)
            else:
                raise ConfigError("unknown prefix '{}' in the node with tag " \\
                                  "{}" \\
                                  .format(match.group(1), node.tag))
        else:
            # RFC7950 section 9.10.3''')],
  demo=H + '''
T = ('<nc:config xmlns:nc="urn:ietf:params:xml:ns:netconf:base:1.0">'
     '<c xmlns="urn:d:main" xmlns:{0}="urn:d:type"><id>{0}:id-a</id></c>'
     '</nc:config>')
a, b = [Config(dev(), T.format(p)) for p in ('dt', 'd-main')]
check(a == b and not (a != b) and a <= b and b <= a, 'not equal')
'''),
 dict(id='s28-nested-default-case', property='C09', lib=[L, N],
  needs='a choice whose default case is a choice with a default, written '
        'without a case statement',
  breaks='the inner default is not in use',
  edits=[('manager.py', '''                    default_nodes.append(default_case_node)
                    default_nodes += self.default_in_use(default_case_node)''',
          '''                    default_nodes.append(default_case_node)
                    if all(n.get('type') != 'choice'
                           for n in default_case_node[:1]):
                        default_nodes += \\
                            self.default_in_use(default_case_node)''')],
  demo=NET + '''
d = local({'m': mod('m', """container c { choice o { default a;
 case a { choice i { default x; case x { leaf x { type string; default 1; } }
 leaf y { type string; } } } leaf b { type string; } } }""")}, ['m'])[0]
c = d.models['m'].tree.find('{urn:m}c')
got = [n.tag for n in d.default_in_use(c)]
check('{urn:m}x' in got, str(got))
'''),
 dict(id='s29-stale-schema-nodes', property='C21', lib=[L, N],
  needs='a model that is loaded again, from another file, without a root '
        'whose nodes were asked for before',
  breaks='nodes of the old version are still found',
  edits=[('manager.py', '''                          if self.roots[k.split(' ')[0]] != m.name}''',
          '''                          if k.split(' ')[0] not in m.roots}''')],
  demo=NET + '''
t = {}
for v, b in ((1, 'leaf a { type string; } leaf b { type string; }'),
             (2, 'leaf b { type string; }'),
             (3, 'leaf b { type string; } leaf a { type int8; }')):
    d = local({'m': mod('m', b)}, ['m'])[0]
    t[v] = os.path.join(d.compiler.dir_yang, 'm.xml')
x = ('<nc:config xmlns:nc="urn:ietf:params:xml:ns:netconf:base:1.0">'
     '<a xmlns="urn:m">1</a></nc:config>')
d = local({'m': mod('m', 'leaf b { type string; }')})[0]
d.load_model(t[1])
c = Config(d, x)
d.get_schema_node(c.ele[0])
d.load_model(t[2])
try:
    s = d.get_schema_node(c.ele[0])
except Exception:
    s = None
check(s is None, 'found {}'.format(s))
'''),
 dict(id='s30-section-replaces-line', property='C13', lib=L,
  needs='a mode without content that is replaced by one with content and a '
        'longer name',
  breaks='the old mode stays on the device',
  edits=[('runningconfig.py', "if i == '+' and v is None]", "if i == '+']")],
  demo=R + '''
a = 'router bgp 1\\n address-family ipv4\\n'
b = ('router bgp 1\\n address-family ipv4 vrf A\\n  '
     'neighbor 1.1.1.1 activate\\n')
cli = RunningConfigDiff(a, b).cli
lines = [l.strip() for l in cli.splitlines()]
check('no address-family ipv4' in lines, cli)
check('address-family ipv4 vrf A' in lines, cli)
'''),
 dict(id='s31-only-last-address', property='C13', lib=L,
  needs='several new addresses on one interface',
  breaks='only the last address is configured',
  edits=[('runningconfig.py', '''                        if positive_list[idx].strip() == exact_cmd:
                            idx_positive_list.append(idx)
                    idx_positive_dict''', '''                        if (
                            positive_list[idx].strip() == exact_cmd or
                            idx_positive - idx > 1
                        ):
                            idx_positive_list.append(idx)
                    idx_positive_dict''')],
  demo=R + '''
a = 'interface e1\\n shutdown\\n'
b = ('interface e1\\n shutdown\\n ipv6 address 1::1/64\\n mtu 9000\\n'
     ' ipv6 address 2::1/64\\n')
cli = RunningConfigDiff(a, b).cli
check('ipv6 address 1::1/64' in cli and 'ipv6 address 2::1/64' in cli, cli)
'''),
 dict(id='s32-orderless-deep', property='C14', lib=L,
  needs='orderless commands four levels deep that are shown in another order',
  breaks='a difference is reported',
  edits=[('runningconfig.py', '''        lines2 = {item[0]: idx for idx, item in enumerate(list2)
                  if isinstance''', '''        lines2 = {item[0]: idx for idx, item in enumerate(list2)
                  if depth < 3 and isinstance''')],
  demo=R + '''
t = 'a\\n b\\n  c\\n   d\\n    {}\\n    {}\\n'
x, y = 'mobile-network pool A', 'mobile-network pool B'
d = RunningConfigDiff(t.format(x, y), t.format(y, x))
check(not d, str(d))
'''),
 dict(id='s33-other-files-stay', property='C18', lib=[L, N],
  needs='a folder with files of another kind in a subfolder',
  breaks='they are left in the folder',
  edits=[('model.py', '''            for f in files:
                os.remove(os.path.join(root, f))''', '''            dirs[:] = [d for d in dirs if not d.startswith('.')]
            for f in files:
                if f.endswith(('.yang', '.xml')):
                    os.remove(os.path.join(root, f))''')],
  demo=NET + '''
f = folder()
open(os.path.join(f, 'm.txt'), 'w').write('x')
d = server({'m': mod('m', 'leaf a { type string; }')})[0]
d.scan_models(folder=f, download='force')
check('m.yang' in os.listdir(f), str(os.listdir(f)))
check('m.txt' not in os.listdir(f), str(os.listdir(f)))
'''),
 dict(id='s34-delta-destination-models', property='C24', lib=[L, N],
  needs='a delta whose destination uses a model that its source does not '
        'use, added to a config of a device with another version of it',
  breaks='the delta is accepted',
  edits=[('config.py', '''        elif isinstance(other, ConfigDelta):
            if ConfigCompatibility(self, other).is_compatible:
                return Config(self.device,
                              NetconfCalculator(''', '''        elif isinstance(other, ConfigDelta):
            if ConfigCompatibility(self, other.config_src).is_compatible:
                return Config(self.device,
                              NetconfCalculator(''')],
  demo=NET + '''
from ncdiff.errors import ModelIncompatible
x = ('<nc:config xmlns:nc="urn:ietf:params:xml:ns:netconf:base:1.0">'
     '<a xmlns="urn:m">1</a></nc:config>')
e = '<nc:config xmlns:nc="urn:ietf:params:xml:ns:netconf:base:1.0"/>'
d1 = local({'m': mod('m', 'leaf a { type string; }')}, ['m'])[0]
d2 = local({'m': mod('m', 'leaf a { type string; default 1; }')}, ['m'])[0]
delta = Config(d1, x) - Config(d1, e)
try:
    Config(d2, e) + delta
    check(False, 'accepted')
except ModelIncompatible:
    pass
'''),
 dict(id='s35-filter-same-name', property='C08', lib=L,
  needs='a filter that selects a node below one list entry but not the node '
        'of the same name in the entry around it',
  breaks='the other node is kept',
  edits=[('config.py', '''                    elif child in ancestors:
                        self._node_filter(child, ancestors, filtrates)
                    else:
                        node.remove(child)
            else:''', '''                    elif child in ancestors:
                        self._node_filter(child, ancestors, filtrates)
                    elif not any(child.tag == f.tag for f in filtrates):
                        node.remove(child)
            else:''')],
  demo=H + '''
c = cfg('<l><k>1</k><v>1</v><w>1</w></l><l><k>2</k><v>2</v><w>2</w></l>')
r = c.filter('.//dm:l[dm:k="1"]/dm:v | .//dm:l[dm:k="2"]/dm:w',
             namespaces={'dm': 'urn:d:main'})
check(r == cfg('<l><k>1</k><v>1</v></l><l><k>2</k><w>2</w></l>'), r.xml)
'''),
 dict(id='s36-replace-subset-entry', property='C01', lib=L,
  needs='diff type replace and a list entry that only loses nodes, next to '
        'another change',
  breaks='the entry keeps the nodes',
  edits=[('netconf.py', '''                if (
                    self._node_le(child_self, child_other) and
                    self._node_le(child_other, child_self)
                ):
                    if s_node.get('ordered-by') != 'user':
                        node_self.remove(child_self)''', '''                if self._node_le(child_self, child_other):
                    if s_node.get('ordered-by') != 'user':
                        node_self.remove(child_self)''')],
  demo=H + '''
a = cfg('<l><k>1</k><v>1</v><w>1</w></l>')
b = cfg('<a>1</a><l><k>1</k><v>1</v></l>')
d = ConfigDelta(config_src=a, config_dst=b, diff_type='replace',
                replace_depth=1)
check('<k>1</k>' in str(d).replace(' ', ''), str(d))
check(a + d == b, (a + d).xml)
'''),
 dict(id='s38-insert-after-missing', property='C03', lib=L,
  needs='an edit that inserts an entry after one that does not exist',
  breaks='the edit is accepted',
  edits=[('netconf.py', '''                sibling = node_sum.find(child_other.tag +
                                        child_other.get(key_tag),
                                        namespaces=child_other.nsmap)
                if sibling is None:
                    path = self.device.get_xpath(child_other)
                    key = child_other.get(key_tag)
                    _inserterror('after\'''', '''                sibling = node_sum.find(child_other.tag +
                                        child_other.get(key_tag),
                                        namespaces=child_other.nsmap)
                if sibling is None and len(siblings) > 1:
                    sibling = siblings[-1]
                if sibling is None:
                    path = self.device.get_xpath(child_other)
                    key = child_other.get(key_tag)
                    _inserterror('after\'''')],
  demo=H + '''
from lxml import etree
from ncdiff.errors import ConfigDeltaError
a = cfg('<ol><k>1</k></ol><ol><k>2</k></ol>')
e = etree.XML(xml('<ol yang:insert="after" yang:key="[dm:k=\\'9\\']">'
                  '<k>3</k></ol>'))
try:
    r = a + e
    check(False, r.xml)
except ConfigDeltaError:
    pass
'''),
]
