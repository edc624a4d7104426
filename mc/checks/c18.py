"""C18  A folder of models survives crashes, lost connections and I/O errors:
the next scan repairs it, and a complete folder is used again as it is."""
import json
import os
import pickle
import shutil
import subprocess
import sys

if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))))

import core
from core import Stats, pmap

CRASH, TORN, FAIL, NONE = range(4)
MODES = {CRASH: 'crash before', TORN: 'crash in the middle of',
         FAIL: 'no space at'}


def mod(name, rev, body='', imports=()):
    return '\n'.join(
        ['module {} {{'.format(name), ' namespace "urn:{}";'.format(name),
         ' prefix {};'.format(name)] +
        [' import {0} {{ prefix {0}; }}'.format(i) for i in imports] +
        [' revision {};'.format(rev), body, '}', ''])


# two devices (or two releases of one) that use the same folder
DEVICES = {
    'A': (['ma', 'mb'], {
        'ma': mod('ma', '2020-01-01', 'container top { leaf x { type mx:t; '
                  '} }', ['mx']),
        'mb': mod('mb', '2020-01-01', 'augment /ma:top { leaf y { type string;'
                  ' } } leaf z { type mx:t; }', ['ma', 'mx']),
        'mx': mod('mx', '2020-01-01', 'typedef t { type int8; }')}),
    'B': (['ma', 'mc'], {
        'ma': mod('ma', '2021-01-01', 'container top { leaf x2 { type string; '
                  '} }'),
        'mc': mod('mc', '2021-01-01', 'augment /ma:top { leaf y3 { type '
                  'string; } }', ['ma'])}),
}
FORMS = {'check': 'check', 'force': 'force'}


class Reply(object):
    ok = True
    _raw = ''

    def __init__(self, data):
        self.data = data


class Sorted(object):
    """os.scandir in a fixed order."""

    def __init__(self, entries):
        self.it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def fix_order(reverse):
    scandir, listdir = os.scandir, os.listdir
    os.scandir = lambda *a: Sorted(sorted(
        scandir(*a), key=lambda e: e.name, reverse=reverse))
    os.listdir = lambda *a: sorted(listdir(*a), reverse=reverse)


def snapshot(folder):
    out = {}
    for root, dirs, files in os.walk(folder):
        for f in files:
            p = os.path.join(root, f)
            with open(p, 'rb') as g:
                out[os.path.relpath(p, folder)] = g.read()
    return tuple(sorted(out.items())) if os.path.isdir(folder) else None


def restore(folder, state):
    shutil.rmtree(folder, ignore_errors=True)
    if state is None:
        return
    os.makedirs(folder)
    for name, data in state:
        p = os.path.join(folder, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(data)


def session(folder, dev, download, fault, reverse):
    """One session with a device: scan, then load all models.  Runs in a
    process of its own.  fault: None, ('op', n, mode) or ('rpc', k, kind)."""
    import ctypes
    import sched
    from lxml import etree
    from ncclient import manager, operations
    from ncclient.transport.errors import SessionCloseError
    from ncclient.operations.errors import TimeoutExpiredError
    from ncclient.devices.default import DefaultDeviceHandler
    from ncdiff import ModelDevice
    from fixture import FakeSession
    listed, texts = DEVICES[dev]
    asked = []
    lib = ctypes.CDLL(None)
    lib.mc_kinds.restype = ctypes.c_char_p
    rpc_at, kind = (fault[1], fault[2]) if fault and fault[0] == 'rpc' else \
        (None, None)

    def rpc(self, cls, module=None, *a, **k):
        if cls is not operations.retrieve.GetSchema:
            raise RuntimeError('unexpected rpc')
        asked.append(module)
        if rpc_at is not None:
            if kind == 'lost' and len(asked) >= rpc_at:
                raise SessionCloseError('lost')
            if kind == 'timeout' and len(asked) == rpc_at:
                raise TimeoutExpiredError('timeout')
        if module not in texts:
            raise operations.rpc.RPCError(etree.fromstring(
                '<rpc-error xmlns="urn:ietf:params:xml:ns:netconf:base:1.0">'
                '<error-tag>invalid-value</error-tag></rpc-error>'))
        return Reply(texts[module])
    manager.Manager.execute = rpc
    fix_order(reverse)
    caps = ['urn:ietf:params:netconf:base:1.1'] + [
        'urn:{0}?module={0}&revision={1}'.format(
            m, texts[m].split('revision ')[1][:10]) for m in listed]
    device = ModelDevice(FakeSession(caps), DefaultDeviceHandler())
    res = {'models': {}, 'error': None}

    def main():
        lib.mc_arm(folder.encode(), fault[1] if fault and fault[0] == 'op'
                   else -1, fault[2] if fault and fault[0] == 'op' else NONE)
        try:
            if download == 'again':
                # the second scan of one device
                device.scan_models(folder=folder, download='check')
                for m in sorted(listed):
                    device.load_model(m)
                del asked[:]
                device.scan_models(folder=folder, download='force')
            else:
                device.scan_models(folder=folder, download=download)
            res['asked'] = list(asked)
            res['names'] = sorted(device.namespaces)
            for m in sorted(listed):
                model = device.load_model(m)
                res['models'][m] = (str(model), etree.tostring(
                    model.tree, method='c14n').decode())
        except Exception as e:
            res['error'] = repr(e)
        res['kinds'] = lib.mc_kinds().decode()
        lib.mc_disarm()
    # one fixed schedule of the download threads, see C17 for the others
    s = sched.Sched([], files=('/nowhere',), package='ncdiff')
    s.run(main)
    if s.failure is not None:
        res['error'] = repr(s.failure)
    if res['error'] is None:
        files = snapshot(folder) or ()
        res['yang'] = {k: v for k, v in files if k.endswith('.yang')}
        # whatever was in a folder is only left where it is used as it is
        res['files'] = [k for k, v in files] if res['asked'] else None
    return res


def in_child(out, folder, *args):
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            r = session(folder, *args)
            with open(out, 'wb') as f:
                pickle.dump(r, f)
            code = 0
        except BaseException:
            import traceback
            traceback.print_exc()
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    code = os.WEXITSTATUS(status) if os.WIFEXITED(status) else -1
    if code in (97, 98, 99):
        return None
    if code != 0:
        raise core.CheckError('session ends with {}'.format(status))
    with open(out, 'rb') as f:
        return pickle.load(f)


class Worker(object):

    def __init__(self):
        self.work = core.scratch('mc-c18-')
        # the folder and a neighbour that nobody may touch
        self.folder = os.path.join(self.work, 'home', 'yang')
        self.near = os.path.join(self.work, 'home', 'other')
        os.makedirs(self.near)
        with open(os.path.join(self.near, 'capabilities.txt'), 'w') as f:
            f.write('mine')
        self.out = os.path.join(self.work, 'out')
        self.ref = {}

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    def run(self, state, *args):
        restore(self.folder, state)
        if state is None:
            # the parent folder is there, the folder itself is not
            pass
        r = in_child(self.out, self.folder, *args)
        if snapshot(self.near) != (('capabilities.txt', b'mine'),):
            raise Outside()
        return r, snapshot(self.folder)

    def reference(self, dev):
        if dev not in self.ref:
            r, s = self.run(None, dev, 'force', None, False)
            self.ref[dev] = r
        return self.ref[dev]


class Outside(Exception):
    pass


def same(r, ref):
    if r['error'] is not None:
        return 'fails with {}'.format(r['error'])
    for k in ('names', 'models', 'yang'):
        if r[k] != ref[k]:
            a, b = r[k], ref[k]
            return '{} differ: {} instead of {}'.format(
                k, sorted(a) if a != b and k != 'models' else a,
                sorted(b) if k != 'models' else b)
    if r['files'] is not None and r['files'] != ref['files']:
        return 'files are {} instead of {}'.format(r['files'], ref['files'])
    return None


def describe(hist):
    return '; '.join(hist)


def worker(job, path):
    """job: list of (state, history).  Explores one disturbed session from
    each state, and the recovery from each state found."""
    core.import_ncdiff()
    import sched     # noqa: imported once, before the forks
    import ncclient.manager    # noqa
    st = Stats()
    w = Worker()
    found = {}
    try:
        for kind, state, hist, known in job:
            if kind == 'recover':
                recover(w, st, state, hist)
            else:
                disturb(w, st, state, hist, found)
    finally:
        w.close()
    with open(path, 'wb') as f:
        pickle.dump((st.dict(), list(found.items())), f)


def recover(w, st, state, hist):
    """A scan without trouble, by either device, and once more."""
    for dev in sorted(DEVICES):
        ref = w.reference(dev)
        st.states += 1
        for mode in ('check', 'force') + (('again',) if len(hist) < 3 else ()):
            try:
                r, s1 = w.run(state, dev, mode, None, False)
            except Outside:
                st.violation('outside|' + describe(hist), 'files outside the '
                             'folder are changed after ' + describe(hist),
                             {'history': hist})
                return
            st.transitions += 1
            st.traces += 1
            bad = same(r, ref)
            if bad is None and mode != 'check' and not r['asked']:
                bad = 'a forced download asks for nothing'
            if bad is None:
                r2, s2 = w.run(s1, dev, 'check', None, False)
                st.transitions += 1
                bad = same(r2, ref)
                if bad is None and r2['asked']:
                    bad = 'a complete folder is downloaded again'
            if bad:
                h = hist + ['{} by {}'.format(mode, dev)]
                st.violation('recover|' + describe(h),
                             'after {}: {}'.format(describe(h), bad),
                             {'history': h, 'files': [
                                 n for n, d in state or ()]})


def disturb(w, st, state, hist, found):
    for dev in sorted(DEVICES):
        for download in ('check', 'force'):
            for reverse in (False, True):
                r, s = w.run(state, dev, download, None, reverse)
                st.transitions += 1
                base = hist + ['{} by {}{}'.format(
                    download, dev, ' (reverse listing)' if reverse else '')]
                faults = []
                for i, k in enumerate(r['kinds']):
                    for m in (CRASH, TORN, FAIL):
                        if m != TORN or k == 'w':
                            faults.append(('op', i + 1, m))
                for i in range(len(r.get('asked', ()))):
                    for k in ('lost', 'timeout'):
                        faults.append(('rpc', i + 1, k))
                found.setdefault(s, base)
                for f in faults:
                    r, s = w.run(state, dev, download, f, reverse)
                    st.transitions += 1
                    h = hist + ['{}, {} {}'.format(
                        base[-1], MODES[f[2]] + ' file operation'
                        if f[0] == 'op' else f[2] + ' at request', f[1])]
                    if s not in found or len(h) < len(found[s]):
                        found[s] = h


def spawn(item):
    job, so, path = item
    jp = path + '.job'
    with open(jp, 'wb') as f:
        pickle.dump(job, f)
    env = dict(os.environ, LD_PRELOAD=so, PYTHONHASHSEED='0',
               PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([sys.executable, os.path.abspath(__file__), jp, path],
                       env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE)
    if p.returncode:
        raise core.CheckError(p.stderr.decode()[-2000:])
    with open(path, 'rb') as f:
        return pickle.load(f)


def check(run):
    tmp = core.scratch('mc-c18-')
    try:
        so = os.path.join(tmp, 'crash.so')
        src = os.path.join(core.VERIF, 'mc', 'native', 'crash.c')
        p = subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-o', so, src,
                            '-ldl'], stderr=subprocess.PIPE)
        if p.returncode:
            raise core.CheckError(p.stderr.decode())
        explore(run, tmp, so)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def rounds(run, tmp, so, jobs, label):
    n = min(len(jobs), 64)
    parts = [jobs[i::n] for i in range(n)]
    found = {}
    for st, fs in pmap(spawn, [
            (j, so, os.path.join(tmp, '{}-{}'.format(label, i)))
            for i, j in enumerate(parts)]):
        run.merge(st)
        for s, h in fs:
            if s not in found or (len(h), h) < (len(found[s]), found[s]):
                found[s] = h
    return found


def explore(run, tmp, so):
    core.import_ncdiff()
    depth = 2 if run.thorough else 1
    seen = {None: []}
    # folders of undisturbed sessions
    frontier = {None: ['no folder']}
    empty = ()
    frontier[empty] = ['empty folder']
    seen[empty] = ['empty folder']
    other = tuple(sorted({
        'README': b'x', 'mc.yang': DEVICES['B'][1]['mc'].encode(),
        'ma.yang': b'module ma {', 'ma.xml': b'<ma/>', 'x.xml': b'',
        'old/mx.yang': DEVICES['A'][1]['mx'].encode(), 'old/x.txt': b'',
        '.x': b'', 'capabilities.txt': b'urn:'}.items()))
    frontier[other] = seen[other] = ['folder with other files']
    first = rounds(run, tmp, so, [('disturb', None, ['no folder'], None)],
                   'first')
    done = {s: h for s, h in first.items() if len(h) == 2 and
            h[-1].endswith(('by A', 'by B'))}
    frontier.update(done)
    for level in range(depth):
        found = rounds(run, tmp, so,
                       [('disturb', s, h, None) for s, h in sorted(
                           frontier.items(), key=lambda x: x[1])],
                       'd{}'.format(level))
        new = {s: h for s, h in found.items() if s not in seen}
        seen.update(new)
        frontier = new
    rounds(run, tmp, so, [('recover', s, h or ['no folder'], None)
                          for s, h in sorted(seen.items(),
                                             key=lambda x: x[1])], 'r')
    run.extra['folder states'] = len(seen)
    run.extra['disturbed sessions in a row'] = depth
    for h in sorted(seen.values(), key=lambda h: (-len(h), h))[:3]:
        run.sample({'history': h})
    run.assumptions += [
        'a crash ends the process (not the operating system): what was '
        'written stays written',
        'one schedule of the download threads per history']


if __name__ == '__main__':
    with open(sys.argv[1], 'rb') as f:
        worker(pickle.load(f), sys.argv[2])
