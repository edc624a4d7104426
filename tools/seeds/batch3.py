L = '/verif/tools/seeds/demolib.py'
N = '/verif/tools/seeds/demonet.py'
H = 'from demolib import *\n'
R = H + 'from ncdiff import RunningConfigDiff\n'
NET = H + '''
import demonet
from demonet import BASE
from xml.sax.saxutils import escape


def caps(mods):
    return BASE + ['urn:{0}?module={0}&revision=2020-01-01'.format(m)
                   for m in mods]


def server(mods, extra=()):
    """A device that delivers these modules by get-schema."""
    asked = []

    def answer(rpc):
        op = rpc[0]
        name = op.tag.split('}')[1]
        if name == 'get-schema':
            m = op.findtext('{*}identifier')
            asked.append(m)
            return ('<data xmlns="urn:ietf:params:xml:ns:yang:'
                    'ietf-netconf-monitoring">' + escape(mods[m]) + '</data>')
        return '<ok/>'
    d, s = demonet.device(caps(mods) + list(extra), answer)
    return d, s, asked


def mod(name, body, imports=(), prefix=None, ns=None):
    return 'module {0} {{ namespace "{3}"; prefix {4}; {1} {2} }}'.format(
        name, ' '.join('import {0} {{ prefix {0}; }}'.format(i)
                       for i in imports),
        'revision 2020-01-01; ' + body, ns or 'urn:' + name, prefix or name)


def local(mods, load=(), extra=()):
    f = folder()
    for m, t in mods.items():
        with open(os.path.join(f, m + '.yang'), 'w') as h:
            h.write(t)
    return demonet.device(caps(mods) + list(extra), lambda r: '<ok/>', f,
                          load)
'''

SEEDS = [
 dict(id='s11-section-order', property='C12', lib=L,
  needs='two running configs that differ only in the order of lines inside a '
        'section',
  breaks='the diff is empty although the configs differ',
  edits=[('runningconfig.py', '''            if list1[current_index_1][1] == list2[current_index_2][1]:
                if list1''', '''            if (
                sorted(list1[current_index_1][1] or [], key=str) ==
                sorted(list2[current_index_2][1] or [], key=str)
            ):
                if list1''')],
  demo=R + '''
a = 'policy-map P\\n class A\\n class B\\n'
b = 'policy-map P\\n class B\\n class A\\n'
d = RunningConfigDiff(a, b)
check(bool(d), 'no difference found')
check('class' in d.cli, d.cli)
'''),
 dict(id='s14-diff-same-count', property='C15', lib=[L, N],
  needs='a node two levels below a common one that is only in the second '
        'version',
  breaks='the added node is not reported',
  edits=[('model.py', '''        if ModelDiff.node_less(node1, node2) and \\
           ModelDiff.node_less(node2, node1):
            return True''', '''        if ModelDiff.node_less(node1, node2) and \\
           len(node1) == len(node2):
            return True''')],
  demo=NET + '''
from ncdiff import ModelDiff
t = 'container a {{ container b {{ leaf x {{ type string; }} {} }} }}'
m = [local({'m': mod('m', t.format(x))}, ['m'])[0].models['m']
     for x in ('', 'leaf y { type string; }')]
d = ModelDiff(*m)
check(bool(d) and 'y?' in str(d) and d.added, str(d))
d = ModelDiff(m[1], m[0])
check(bool(d) and d.deleted, str(d))
'''),
 dict(id='s15-download-twice', property='C17', lib=[L, N],
  needs='two download threads that find the same new dependency at the same '
        'time',
  breaks='the dependency is requested and written twice',
  edits=[('model.py', '''            with self.download_lock:
                s = dependencies - self.to_be_downloaded
                self.to_be_downloaded.update(s)
''', '''            s = dependencies - self.to_be_downloaded
            with self.download_lock:
                self.to_be_downloaded.update(s)
''')],
  demo=NET + '''
import threading
import ncdiff.model
bar = threading.Barrier(2)


class Slow(set):
    def __sub__(self, other):
        r = set(self).difference(other)
        if r:
            try:
                bar.wait(2)
            except threading.BrokenBarrierError:
                pass
        return r


ncdiff.model.set = Slow
mods = {'a': mod('a', 'leaf a { type string; }', ['z']),
        'b': mod('b', 'leaf b { type string; }', ['z']),
        'z': mod('z', 'leaf z { type string; }')}
d, s, asked = server(mods)
for c in [c for c in s.server_capabilities if 'module=z' in c]:
    s.server_capabilities.remove(c)
d.scan_models(folder=folder(), download='force')
check(sorted(asked) == ['a', 'b', 'z'], str(asked))
'''),
 dict(id='s16-stale-cache', property='C18', lib=[L, N],
  needs='a folder with compiled models of another release of the device',
  breaks='the compiled models of the old release are used',
  edits=[('model.py', '''            for f in files:
                os.remove(os.path.join(root, f))''', '''            for f in files:
                if f.endswith('.yang') or f == 'dependencies.xml':
                    os.remove(os.path.join(root, f))''')],
  demo=NET + '''
f = folder()
d = server({'m': mod('m', 'leaf a { type string; }')})[0]
d.scan_models(folder=f)
d.load_model('m')
d = server({'m': mod('m', 'leaf b { type string; }')}, ['urn:new'])[0]
d.scan_models(folder=f)
m = d.load_model('m')
check(m.roots == ['{urn:m}b'], str(m.roots))
'''),
 dict(id='s17-torn-capabilities', property='C18', lib=[L, N],
  needs='a capabilities file that was only partly written',
  breaks='an incomplete folder counts as complete',
  edits=[('model.py', '''            if c == '\\n'.join(sorted(list(self.device.server_capabilities))):
''', '''            if '\\n'.join(
                sorted(list(self.device.server_capabilities))
            ).startswith(c):
''')],
  demo=NET + '''
f = folder()
mods = {'m': mod('m', 'leaf a { type string; }')}
open(os.path.join(f, 'capabilities.txt'), 'w').write('urn:ietf:params')
d, s, asked = server(mods)
d.scan_models(folder=f)
check(asked == ['m'], str(asked))
'''),
 dict(id='s18-running-first', property='C19', lib=[L, N],
  needs='a device with both the candidate and the writable-running capability '
        'and an edit without target',
  breaks='the edit goes to running',
  edits=[('manager.py', '''               'urn:ietf:params:netconf:capability:candidate:1.0' not in \\
               self.server_capabilities and \\
''', '')],
  demo=NET + '''
C = 'urn:ietf:params:netconf:capability:'
d, s = local({'m': mod('m', 'leaf a { type string; }')}, ['m'],
             [C + 'candidate:1.0', C + 'writable-running:1.0'])
x = Config(d, '<nc:config xmlns:nc="urn:ietf:params:xml:ns:netconf:base:1.0">'
           '<a xmlns="urn:m">1</a></nc:config>')
try:
    d.edit_config(x)
except TypeError:
    pass
sent = [r[0].find('{*}target')[0].tag.split('}')[1] for r in s.sent]
check('running' not in sent, str(sent))
'''),
 dict(id='s20-reload-order', property='C21', lib=[L, N],
  needs='a model that is loaded again in a version without a root whose '
        'nodes were asked for before',
  breaks='loading fails',
  edits=[('manager.py', '''        if m.name in self.models:
            self.nodes =''', '''        if m.name in self.models:
            self.models[m.name] = m
            self.nodes =''')],
  demo=NET + '''
t = {}
for v, b in ((1, 'leaf a { type string; } leaf b { type string; }'),
             (2, 'leaf b { type string; }')):
    d = local({'m': mod('m', b)}, ['m'])[0]
    t[v] = os.path.join(d.compiler.dir_yang, 'm.xml')
d = local({'m': mod('m', 'leaf b { type string; }')})[0]
d.load_model(t[1])
Config(d, '<nc:config xmlns:nc="urn:ietf:params:xml:ns:netconf:base:1.0">'
       '<a xmlns="urn:m">1</a></nc:config>')
try:
    d.load_model(t[2])
except KeyError as e:
    check(False, repr(e))
check(list(d.roots) == ['{urn:m}b'], str(d.roots))
'''),
 dict(id='s21-module-first', property='C22', lib=[L, N],
  needs='a capability whose module parameter is not the first one',
  breaks='the module is not found',
  edits=[('manager.py', "regexp_str = r'module=", "regexp_str = r'[?]module=")],
  demo=NET + '''
d, s = demonet.device(BASE + ['urn:x?revision=2020-01-01&module=x',
                              'urn:y?module=y'], lambda r: '<ok/>')
check(d.models_loadable == ['x', 'y'], str(d.models_loadable))
'''),
 dict(id='s22-augment-feature', property='C23', lib=[L, N],
  needs='an augmented node with an if-feature of its own in an augment with '
        'another if-feature',
  breaks='the feature of the augment is lost',
  edits=[('model.py', "        if hasattr(child, 'i_augment'):\n",
          "        if hasattr(child, 'i_augment') and not featurenames:\n")],
  demo=NET + '''
d = local({'m': mod('m', 'feature f; feature g; container c { '
    'leaf a { type string; } } augment /m:c { if-feature f; '
    'leaf b { if-feature g; type string; } }')}, ['m'])[0]
b = d.models['m'].tree.find('.//{urn:m}b')
check(sorted(b.get('if-feature', '').split()) == ['f', 'g'], str(b.attrib))
'''),
 dict(id='s23-leafref-prefix', property='C23', lib=[L, N],
  needs='a leafref to a node of another module, with two steps there',
  breaks='the type of the leaf is a wrong path',
  edits=[('model.py', '''                            target.append(prefix + ':' + name)
                            curprefix = prefix
''', '''                            target.append(prefix + ':' + name)
''')],
  demo=NET + '''
d = local({'m': mod('m', 'container c { } '
             'leaf r { type leafref { path "/m:c/n:d/n:e"; } }', ['n']),
           'n': mod('n', 'grouping g { leaf q { type string; } }'),
           'o': mod('o', 'leaf s { type leafref { path "/p:c/p:d"; } }',
                    ['p']),
           'p': mod('p', 'container c { leaf d { type string; } }')},
          ['o'])[0]
s = d.models['o'].tree.find('{urn:o}s')
check(s.get('datatype') == '-> /p:c/d', str(s.attrib))
'''),
 dict(id='s24-compat-first-config', property='C24', lib=[L, N],
  needs='two devices with different versions of a model that only the second '
        'config uses',
  breaks='a delta is computed although the schemas differ',
  edits=[('config.py', 'return sorted(list(set(self.config1.models + '
          'self.config2.models)))', 'return sorted(list(set(self.config1.'
          'models or self.config2.models)))')],
  demo=NET + '''
from ncdiff.errors import ModelIncompatible
X = '<nc:config xmlns:nc="urn:ietf:params:xml:ns:netconf:base:1.0">{}' \\
    '</nc:config>'
devs = [local({'a': mod('a', 'leaf a { type string; }'),
               'b': mod('b', 'leaf b { type %s; }' % t)}, ['a', 'b'])[0]
        for t in ('string', 'int8')]
a = Config(devs[0], X.format('<a xmlns="urn:a">1</a>'))
b = Config(devs[1], X.format('<b xmlns="urn:b">1</b>'))
try:
    ConfigDelta(config_src=a, config_dst=b)
    check(False, 'accepted')
except ModelIncompatible:
    pass
'''),
 dict(id='s25-cache-by-name', property='C16', lib=[L, N],
  needs='two folders with different versions of a module, compiled in one '
        'process',
  breaks='the second folder gets the model of the first',
  edits=[('model.py', '''        cached_name = os.path.join(self.dir_yang, name + ".xml")
        return read_xml(cached_name)
''', '''        cached_name = os.path.join(self.dir_yang, name + ".xml")
        if name in CACHE:
            return deepcopy(CACHE[name])
        return read_xml(cached_name)
'''), ('model.py', '''        cached_name = os.path.join(self.dir_yang, name + ".xml")
        write_xml(cached_name, element)
''', '''        cached_name = os.path.join(self.dir_yang, name + ".xml")
        CACHE[name] = deepcopy(element)
        write_xml(cached_name, element)
'''), ('model.py', '''def read_xml(filename):''', '''CACHE = {}


def read_xml(filename):''')],
  demo=NET + '''
d1 = local({'m': mod('m', 'leaf a { type string; }')}, ['m'])[0]
d2 = local({'m': mod('m', 'leaf b { type string; }')}, ['m'])[0]
check(d2.models['m'].roots == ['{urn:m}b'], str(d2.models['m'].roots))
'''),
]
