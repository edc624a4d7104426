"""C17  Scanning models is complete and clean in every schedule of the
download and parser threads."""
import os
import shutil

import core
import sched
from core import Stats, pmap
from fixture import FakeSession


def mod(name, imports=(), includes=(), body=''):
    return '\n'.join(
        ['module {} {{'.format(name), ' namespace "urn:{}";'.format(name),
         ' prefix {};'.format(name)] +
        [' import {0} {{ prefix {0}; }}'.format(i) for i in imports] +
        [' include {};'.format(i) for i in includes] +
        [' revision 2020-01-01;', body, '}', ''])


def sub(name, parent, imports=(), body=''):
    return '\n'.join(
        ['submodule {} {{'.format(name),
         ' belongs-to {0} {{ prefix {0}; }}'.format(parent)] +
        [' import {0} {{ prefix {0}; }}'.format(i) for i in imports] +
        [' revision 2020-01-01;', body, '}', ''])


LEAF = 'leaf l { type string; }'
# A device: the modules it lists, and what get-schema gives for a module (a
# text, or 'rpc-error' or 'broken').
DEVICES = {
    'shared': (['ma', 'mb'], {
        'ma': mod('ma', ['mx'], body=LEAF), 'mb': mod('mb', ['mx'], body=LEAF),
        'mx': mod('mx')}),
    'chain': (['ma', 'mb'], {
        'ma': mod('ma', ['mx'], body=LEAF), 'mb': mod('mb', ['my']),
        'mx': mod('mx', ['my']), 'my': mod('my')}),
    'listed': (['ma', 'mx'], {
        'ma': mod('ma', ['mx'], ['ma-sub']), 'mx': mod('mx', body=LEAF),
        'ma-sub': sub('ma-sub', 'ma', ['mx'], LEAF)}),
    'errors': (['ma', 'mb', 'mc'], {
        'ma': mod('ma', ['mx'], body=LEAF), 'mb': 'rpc-error',
        'mc': 'broken', 'mx': 'rpc-error'}),
    'garbage': (['ma', 'mb'], {
        'ma': 'this is no YANG', 'mb': mod('mb', ['ma', 'mx'], body=LEAF),
        'mx': mod('mx')}),
    'single': (['ma'], {'ma': mod('ma', body=LEAF)}),
    'nothing': ([], {}),
}
# A folder of YANG files without dependency information
FOLDERS = {
    'three': {'ma': mod('ma', ['mx'], body=LEAF), 'mb': mod('mb', ['mx']),
              'mx': mod('mx')},
    'submodule': {'ma': mod('ma', [], ['ma-sub'], LEAF),
                  'ma-sub': sub('ma-sub', 'ma', ['mx']), 'mx': mod('mx')},
    'garbage': {'ma': mod('ma', ['mx'], body=LEAF), 'mb': 'no YANG at all',
                'mx': mod('mx')},
    'binary': {'ma': mod('ma', body=LEAF), 'mb': b'\xff\xfe\xff',
               'mx': mod('mx')},
    'empty': {},
}


def imports_of(text):
    import re
    return set(re.findall(r' import (\S+) ', text)), \
        set(re.findall(r' include (\S+);', text))


def is_yang(t):
    return isinstance(t, str) and t.startswith(('module', 'submodule'))


def wanted(listed, texts):
    """Modules to be asked for, and those with a file."""
    ask, todo = set(), list(listed)
    while todo:
        m = todo.pop()
        if m in ask:
            continue
        ask.add(m)
        t = texts.get(m)
        if is_yang(t):
            a, b = imports_of(t)
            todo += list(a | b)
    return ask


def deps_of(root):
    """The dependency information as a sorted list (with duplicates)."""
    out = []
    for m in root:
        out.append((m.get('id'), m.get('type'), m.get('prefix'),
                    tuple(sorted(i.get('module')
                                 for i in m.iter('import'))),
                    tuple(sorted(i.get('module')
                                 for i in m.iter('include'))),
                    len(m.findall('roots'))))
    return sorted(out, key=repr)


def expect_deps(texts):
    out = []
    for m, t in texts.items():
        if not is_yang(t):
            continue
        a, b = imports_of(t)
        s = t.startswith('submodule')
        out.append((m, 'submodule' if s else 'module', None if s else m,
                    tuple(sorted(a)), tuple(sorted(b)), int(LEAF in t)))
    return sorted(out, key=repr)


class Reply(object):
    ok = True
    _raw = ''

    def __init__(self, data):
        self.data = data


def device(listed):
    from ncdiff import ModelDevice
    from ncclient.devices.default import DefaultDeviceHandler
    caps = ['urn:ietf:params:netconf:base:1.1'] + [
        'urn:{0}?module={0}&revision=2020-01-01'.format(m) for m in listed]
    return ModelDevice(FakeSession(caps), DefaultDeviceHandler())


def files_of(folder):
    out = {}
    for f in os.listdir(folder):
        if f.endswith('.yang'):
            with open(os.path.join(folder, f), 'rb') as g:
                out[f[:-5]] = g.read()
    return out


def execute(kind, name, prefix, work, reduced=False):
    """One schedule.  Returns (sched, list of complaints)."""
    from ncclient import manager, operations
    from pyang import statements
    bad = []
    folder = os.path.join(work, 'yang')
    shutil.rmtree(folder, ignore_errors=True)
    os.mkdir(folder)
    s = sched.Sched(prefix, files=[core.SRC],
                    # ncdiff's part of the YANG parser: objects of one thread
                    atomic=['ncdiff/__init__.py'], package='ncdiff',
                    reduced=reduced)
    asked, state = [], {'returned': False}
    real = manager.Manager.execute
    threads2 = kind == 'parse2'
    if kind == 'download':
        listed, texts = DEVICES[name]
        with open(os.path.join(folder, 'old.yang'), 'w') as f:
            f.write(mod('old'))
    else:
        listed, texts = [], FOLDERS[name]
        for m, t in texts.items():
            with open(os.path.join(folder, m + '.yang'), 'wb') as f:
                f.write(t if isinstance(t, bytes) else t.encode())
    dev = device(listed)

    def rpc(self, cls, module=None, *a, **k):
        if cls is not operations.retrieve.GetSchema:
            raise RuntimeError('unexpected rpc {}'.format(cls))
        if state['returned']:
            bad.append('{} is asked for after scan_models returned'
                       .format(module))
        asked.append(module)
        s.point()
        t = texts.get(module, 'rpc-error')
        if t == 'rpc-error':
            from lxml import etree
            raise operations.rpc.RPCError(etree.fromstring(
                '<rpc-error xmlns="urn:ietf:params:xml:ns:netconf:base:1.0">'
                '<error-tag>invalid-value</error-tag></rpc-error>'))
        if t == 'broken':
            raise RuntimeError('some error')
        return Reply(t)

    def main():
        dev.scan_models(folder=folder, download='force' if kind == 'download'
                        else 'ignore')
        state['returned'] = True
        # what is there at this very moment
        state['files'] = files_of(folder)
        state['deps'] = deps_of(dev.compiler.context.dependencies)
        state['names'] = sorted(i[0] for i in dev.namespaces)
    manager.Manager.execute = rpc
    if threads2:
        # a pyang that can prune: the parser uses two threads
        statements.Statement.prune = lambda self: None
    try:
        box = s.run(main)
    finally:
        manager.Manager.execute = real
        if threads2:
            del statements.Statement.prune
    if isinstance(s.failure, sched.Stalled):
        return s, None
    if s.failure is not None:
        bad.append('{}: {}'.format(type(s.failure).__name__, s.failure))
        return s, bad
    if 'error' in box:
        bad.append('scan_models raises {!r}'.format(box['error']))
        return s, bad
    if kind == 'download':
        ask = wanted(listed, texts)
        if sorted(asked) != sorted(ask):
            bad.append('asked for {}, should be {} once each'.format(
                sorted(asked), sorted(ask)))
        have = {m: texts[m] for m in ask if m in texts and
                texts[m] not in ('rpc-error', 'broken')}
    else:
        have = texts
    want = {m: t if isinstance(t, bytes) else t.encode()
            for m, t in have.items()}
    if state['files'] != want:
        bad.append('files {}, should be {}'.format(
            sorted(state['files']), sorted(want)))
    elif files_of(folder) != want:
        bad.append('files change after scan_models returned')
    exp = expect_deps(have)
    if state['deps'] != exp:
        bad.append('dependencies {}, should be {}'.format(state['deps'], exp))
    if state['names'] != sorted(d[0] for d in exp if d[1] == 'module'):
        bad.append('namespaces of {}'.format(state['names']))
    return s, bad


def sweep(item):
    kind, name, bound, prefix, fan, reduced = item
    st = Stats()
    work = core.scratch('mc-c17-')

    def ex(p):
        s, bad = execute(kind, name, p, work, reduced)
        st.transitions += s.steps
        st.traces += 1
        st.states += 1
        if bad is None:
            # beyond the scheduler's control: says nothing about the code
            st.count('stalled')
            if st.extra['stalled'] > 3:
                raise core.CheckError('executions stall')
            s.trace = []
        for b in bad or []:
            st.violation('{}|{}|{}'.format(kind, name, b),
                         '{} {}: {}\nschedule {}'.format(
                             kind, name, b, [k for c, k in s.trace]),
                         {'kind': kind, 'name': name,
                          'schedule': [k for c, k in s.trace]})
        if kind == 'download' and len(st.samples) < 1:
            st.sample({'scenario': name, 'schedule': [k for c, k in s.trace]})
        return s
    try:
        n, kids = sched.explore(ex, bound, prefix, fan=fan)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return {'stats': st.dict(), 'kids': kids, 'item': item}


def check(run):
    core.import_ncdiff()
    import ncclient.manager        # noqa: before any scheduler is active
    t = run.thorough
    # all lines with fewer preemptions, the lines that may touch shared state
    # with more
    plan = []
    for k, names in (('download', DEVICES), ('parse', FOLDERS),
                     ('parse2', FOLDERS)):
        for n in names:
            plan.append((k, n, 2 if t else 1, False))
            plan.append((k, n, 3 if t or n in ('single', 'empty', 'nothing')
                         else 2, True))
    # split each scenario into the subtrees of its first execution, then of
    # those again
    items = [(k, n, b, [], True, r) for k, n, b, r in plan]
    for level in range(2):
        nxt = []
        for r in pmap(sweep, items):
            run.merge(r['stats'])
            k, n, b, p, f, red = r['item']
            nxt += [(k, n, b, kid, level == 0, red) for kid in r['kids']]
        items = nxt
    size = 40
    for r in pmap(batch, [items[i::max(1, len(items) // size)]
                          for i in range(max(1, len(items) // size))]):
        for x in r:
            run.merge(x)
    run.extra['scenarios'] = len(plan)
    run.assumptions += [
        'at most {} preemption(s) before any line of ncdiff, {} before lines '
        'that use self, closures or files (once per frame), and at each '
        'request; a wait may time out at any moment, which counts as one'
        .format(2 if t else 1, 3 if t else 2),
        'pyang and lxml calls are atomic']


def batch(items):
    return [sweep(i)['stats'] for i in items]
