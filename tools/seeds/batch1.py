L = '/verif/tools/seeds/demolib.py'
H = 'from demolib import *\n'
SEEDS = [
 dict(id='s01-delete-nested-presence', property='C01', lib=L,
  needs='a presence container without content nested in non-presence '
        'containers that exist only in the source, with preferred_delete '
        'delete',
  breaks='the delta does not delete the presence container',
  edits=[('netconf.py', '''            elif (
                schema_node.get('type') == 'container' and
                schema_node.get('presence') != 'true'
            ):
                self.set_delete_operation(child, reference_child)
            else:''', '''            elif schema_node.get('type') == 'container':
                self.set_delete_operation(child, reference_child)
            else:''')],
  demo=H + '''
src = cfg('<a>1</a><np><deep><pin/></deep></np>')
dst = cfg('<a>1</a>')
x = str(dst - src)
check('delete' in x, x)
'''),
 dict(id='s02-insert-key-namespaces', property='C03', lib=L,
  needs='an edit that inserts a new entry of a user-ordered list before '
        'another one, with a key attribute whose prefix is declared in the '
        'edit but not in the config',
  breaks='the prediction fails although a server accepts the edit',
  edits=[('netconf.py', '''                sibling = node_sum.find(child_other.tag +
                                        child_other.get(key_tag),
                                        namespaces=child_other.nsmap)
                if sibling is None:
                    path = self.device.get_xpath(child_other)
                    key = child_other.get(key_tag)
                    _inserterror('before', path, 'key', key)''',
 '''                sibling = node_sum.find(child_other.tag +
                                        child_other.get(key_tag),
                                        namespaces=node_sum.nsmap)
                if sibling is None:
                    path = self.device.get_xpath(child_other)
                    key = child_other.get(key_tag)
                    _inserterror('before', path, 'key', key)''')],
  demo=H + '''
from lxml import etree
src = Config(dev(), '<nc:config xmlns:nc="urn:ietf:params:xml:ns:netconf:base'
             ':1.0"><c xmlns="urn:d:main"><ol><k>1</k></ol></c></nc:config>')
edit = etree.fromstring(xml('<ol yang:insert="before" '
                            'yang:key="[dm:k=\\'1\\']"><k>2</k></ol>'))
r = src + edit
check([e.text for e in r.ele.iter('{urn:d:main}k')] == ['2', '1'], r.xml)
'''),
 dict(id='s03-containment-adjacent', property='C04', lib=L,
  needs='two user-ordered lists where the smaller one skips an entry in the '
        'middle of the bigger one',
  breaks='containment of user-ordered nodes is denied',
  edits=[('calculator.py', '''                    if peers_of_immediate_elder_sibling[0] not in \\
                            elder_siblings_of_peer:''',
  '''                    if peers_of_immediate_elder_sibling[0] not in \\
                            elder_siblings_of_peer[:1]:''')],
  demo=H + '''
a = cfg('<ul>1</ul><ul>3</ul>')
b = cfg('<ul>1</ul><ul>2</ul><ul>3</ul>')
check(a <= b, 'a <= b')
'''),
 dict(id='s04-default-leaflist-prefix', property='C05', lib=L,
  needs='a user-ordered leaf-list that holds only the first of its default '
        'values',
  breaks='the leaf-list is dropped as if it were the default',
  edits=[('config.py', '''                values = [n.text for n in node.findall(child.tag)]
                if (
                    child_schema_node.get('ordered-by', 'system') == 'user' and
                    values == defaults or
                    child_schema_node.get('ordered-by', 'system') == 'system' and
                    set(values) == set(defaults)
                ):''', '''                values = [n.text for n in node.findall(child.tag)]
                if (
                    child_schema_node.get('ordered-by', 'system') == 'user' and
                    values == defaults[:len(values)] or
                    child_schema_node.get('ordered-by', 'system') == 'system' and
                    set(values) == set(defaults)
                ):''')],
  demo=H + '''
a = cfg('<uld>1</uld>')
check([e.text for e in a.ele.iter('{urn:d:main}uld')] == ['1'], a.xml)
'''),
 dict(id='s05-filter-ancestor-selected', property='C08', lib=L,
  needs='an xpath that selects a node and one of its own descendants (a '
        'union)',
  breaks='the rest of the selected outer node is dropped',
  edits=[('config.py', '''        if node in filtrates:
            return
        elif node in ancestors:
            if node.tag''', '''        if node in filtrates and node not in ancestors:
            return
        elif node in ancestors:
            if node.tag'''),
   ('config.py', '''                for child in node.getchildren():
                    if child in filtrates:
                        continue
                    elif child in ancestors:''',
    '''                for child in node.getchildren():
                    if child in filtrates and child not in ancestors:
                        continue
                    elif child in ancestors:''')],
  demo=H + '''
a = cfg('<np><y>1</y><deep><z>2</z></deep></np>')
r = a.filter('//dm:np | //dm:z')
check(r.ele.find('.//{urn:d:main}y') is not None, r.xml)
'''),
 dict(id='s06-iid-namespace-sticks', property='C10', lib=L,
  needs='instance-identifier values with nodes of two modules',
  breaks='a node of the augmenting module is taken for the node of the same '
         'name of the augmented module, so a change between the two is lost',
  edits=[('ref.py', '''                if url is not None:
                    default_url = url
                if default_url is None:''', '''                if default_url is None:
                    default_url = url
                if default_url is None:''')],
  demo=H + '''
a = cfg('<iid>/dm:c/dm:a</iid>')
b = cfg('<iid>/dm:c/da:a</iid>')
check(bool(b - a) and 'da:a' in str(b - a), str(b - a))
'''),
 dict(id='s07-reorder-deeper', property='C11', lib=L,
  needs='a random depth smaller than the depth of the delta',
  breaks='levels below the chosen one are shuffled as well',
  edits=[('config.py', '''        if current_depth == depth:
            self.reorder_children(node, seed)
        else:
            for child in node:''', '''        if current_depth >= depth:
            self.reorder_children(node, seed)
        if len(node):
            for child in node:''')],
  demo=H + '''
a = cfg('')
b = cfg('<a>1</a><d>2</d><sl>1</sl><sl>2</sl><np><y>1</y></np>')
tags = [e.tag for e in (b - a).nc[0]]
for seed in range(30):
    d = ConfigDelta(config_src=a, config_dst=b, random_depth=0,
                    random_seed=seed)
    check([e.tag for e in d.nc[0]] == tags, str(d))
'''),
 dict(id='s08-replace-subset', property='C01', lib=L,
  needs='diff_type replace with a container of the destination that is a '
        'strict subset of the one in the source, at the replace depth',
  breaks='the container is considered equal and nothing is sent for it',
  edits=[('netconf.py', '''            elif s_node.get('type') == 'container':
                if (
                    self._node_le(child_self, child_other) and
                    self._node_le(child_other, child_self)
                ):
                    node_self.remove(child_self)''',
  '''            elif s_node.get('type') == 'container':
                if self._node_le(child_self, child_other):
                    node_self.remove(child_self)''')],
  demo=H + '''
src = cfg('<np><y>1</y><deep><z>2</z></deep></np>')
dst = cfg('<np><y>1</y></np>')
d = ConfigDelta(config_src=src, config_dst=dst, diff_type='replace',
                replace_depth=1)
check(len(d.nc) > 0 and 'np' in str(d), str(d))
'''),
 dict(id='s09-merge-presence', property='C02', lib=L,
  needs='a delta that creates an empty presence container by merge',
  breaks='the predicted config does not contain the presence container',
  edits=[('netconf.py', '''            if len(e) == 0 and s_node.get('presence') != 'true':
                node_sum.remove(e)''', '''            if len(e) == 0 and s_node.get('presence') is None:
                node_sum.remove(e)'''),
    ('model.py', "XX", "XX")],
  demo=H + '''
'''),
 dict(id='s10-user-order-content', property='C07', lib=L,
  needs='a user-ordered list in which only the order changes while entries '
        'carry data besides keys',
  breaks='the delta repeats unchanged data of the entries',
  edits=[('netconf.py', '''                    if s_node.get('ordered-by') == 'user':
                        for child in child_self.getchildren():
                            schema_node = self.device.get_schema_node(child)
                            if not schema_node.get('is_key'):
                                child_self.remove(child)
                        for child in child_other''', '''                    if s_node.get('ordered-by') == 'user':
                        for child in child_self.getchildren():
                            schema_node = self.device.get_schema_node(child)
                            if schema_node.get('type') != 'leaf':
                                child_self.remove(child)
                        for child in child_other''')],
  demo=H + '''
a = cfg('<ol><k>1</k><v>x</v></ol><ol><k>2</k><v>y</v></ol>')
b = cfg('<ol><k>2</k><v>y</v></ol><ol><k>1</k><v>x</v></ol>')
check((b - a).nc.find('.//{urn:d:main}v') is None, str(b - a))
'''),
]
SEEDS = [s for s in SEEDS if s['edits'][-1][1] != 'XX']
