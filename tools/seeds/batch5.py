import importlib.util
spec = importlib.util.spec_from_file_location('b3',
                                              '/verif/tools/seeds/batch3.py')
b3 = importlib.util.module_from_spec(spec)
spec.loader.exec_module(b3)
L, N, H, R, NET = b3.L, b3.N, b3.H, b3.R, b3.NET

SEEDS = [
 dict(id='s40-key-of-other-module', property='C09', lib=[L, N],
  needs='a list to which another module adds a node with the name of a key',
  breaks='the added node is taken for the key',
  edits=[('composer.py', '''            for child_node in self.schema_node:
''', '''            for child_node in self.schema_node.iterchildren(reversed=True):
''')],
  demo=NET + '''
m = 'list l { key k; leaf k { type string; } leaf v { type string; } }'
n = 'import m { prefix m; } augment /m:l { leaf k { type string; } }'
d = local({'m': mod('m', m), 'n': mod('n', n)}, ['m'])[0]
c = Config(d, '<nc:config xmlns:nc="urn:ietf:params:xml:ns:netconf:base:1.0">'
           '<l xmlns="urn:m"><k>1</k><k xmlns="urn:n">2</k></l></nc:config>')
from ncdiff import Tag
x = d.get_xpath(c.ele[0], type=Tag.LXML_XPATH)
check('"1"' in x and '"2"' not in x, x)
'''),
 dict(id='s41-source-by-position', property='C19', lib=[L, N],
  needs='a get-config whose source is given as a positional argument',
  breaks='running is read instead',
  edits=[('manager.py', '''            if not args and 'source' not in kwargs:
                args = tuple(['running'])''',
          '''            if 'source' not in kwargs:
                args = tuple(['running']) + args[1:]''')],
  demo=NET + '''
C = 'urn:ietf:params:netconf:capability:'
d, s = local({'m': mod('m', 'leaf a { type string; }')}, ['m'],
             [C + 'candidate:1.0', C + 'writable-running:1.0'])
try:
    d.get_config('candidate')
except TypeError:
    pass
sent = [r[0].find('{*}source')[0].tag.split('}')[1] for r in s.sent]
check(sent == ['candidate'], str(sent))
'''),
 dict(id='s42-presence-with-state', property='C20', lib=[L, N],
  needs='a reply with a presence container that holds state only',
  breaks='the presence container is not in the config',
  edits=[('manager.py', '''                    if len(child) == 0 and \\
                       schema_node.get('type') == 'container' and \\
                       schema_node.get('presence') != 'true':''',
          '''                    if len(child) == 0 and \\
                       schema_node.get('type') == 'container':''')],
  demo=NET + '''
d = local({'m': mod('m', 'container c { presence p; leaf s { config false; '
                    'type string; } }')}, ['m'])[0]
from ncclient.operations import RPCReply
from ncclient.operations.retrieve import GetReply
r = GetReply('<rpc-reply xmlns="urn:ietf:params:xml:ns:netconf:base:1.0" '
             'message-id="1"><data><c xmlns="urn:m"><s>1</s></c></data>'
             '</rpc-reply>')
r.parse()
c = d.extract_config(r)
check([e.tag for e in c.ele] == ['{urn:m}c'] and len(c.ele[0]) == 0, c.xml)
'''),
]
