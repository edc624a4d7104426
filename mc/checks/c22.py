"""C22  The models a device offers are found by whichever of the three ways it
supports, whatever the others answer, and exactly those are downloaded."""
import itertools
import os
import shutil

import core
import netsim
from core import Stats, pmap, chunks
from lxml import etree

MON = 'urn:ietf:params:xml:ns:yang:ietf-netconf-monitoring'
LIB = 'urn:ietf:params:xml:ns:yang:ietf-yang-library'
LIBCAP = 'urn:ietf:params:netconf:capability:yang-library:1.0'

# names a YANG module may have
NAMES = ['m', 'M9', 'a-b', 'a_b', 'a.b', '_x', 'module']
# what the server answers to a get
ANSWERS = ['names', 'rpc-error', 'warning', 'lost']
CAPFORMS = [
    'urn:x:{0}?module={0}&revision=2020-01-01',
    'urn:x:{0}?revision=2020-01-01&module={0}',
    'urn:x:{0}?module={0}',
    'http://x/{0}?module={0}&revision=2020-01-01&features=f1,f2&deviations=d',
]


class Lost(Exception):
    pass


def error(severity):
    return '<rpc-error><error-type>application</error-type><error-tag>' \
        'operation-failed</error-tag><error-severity>{}</error-severity>' \
        '</rpc-error>'.format(severity)


def monitoring(names):
    return '<data><netconf-state xmlns="{}"><schemas>{}</schemas>' \
        '</netconf-state></data>'.format(MON, ''.join(
            '<schema><identifier>{}</identifier><version>2020-01-01</version>'
            '<format>yang</format><namespace>urn:x:{}</namespace><location>'
            'NETCONF</location></schema>'.format(n, n) for n in names))


def library(names):
    return '<data><modules-state xmlns="{}">{}</modules-state></data>'.format(
        LIB, ''.join(
            '<module><name>{}</name><revision>2020-01-01</revision>'
            '<namespace>urn:x:{}</namespace><conformance-type>implement'
            '</conformance-type></module>'.format(n, n) for n in names))


class Server(object):

    def __init__(self, mon, lib, names, libnames):
        self.mon, self.lib = mon, lib
        self.names, self.libnames = names, libnames
        self.asked = []

    def content(self, kind, f, names):
        if kind == 'names':
            return f(names)
        if kind == 'rpc-error':
            return error('error')
        if kind == 'warning':
            return f(names)
        raise Lost()

    def __call__(self, rpc):
        op = rpc[0]
        name = etree.QName(op).localname
        if name == 'get-schema':
            m = op.findtext('{%s}identifier' % MON)
            self.asked.append(m)
            return '<data xmlns="{}">module {} {{ namespace "urn:x:{}"; ' \
                'prefix p; revision 2020-01-01; }}</data>'.format(MON, m, m)
        text = etree.tostring(rpc).decode()
        if MON in text:
            return self.content(self.mon, monitoring, self.names)
        if LIB in text:
            return self.content(self.lib, library, self.libnames)
        return error('error')


def works(answer):
    return answer in ('names', 'warning')


def listed(answer, names):
    return sorted(names) if answer in ('names', 'warning') else []


def cases():
    for mon in [None] + ANSWERS:
        for lib in [None] + ANSWERS:
            for form in range(len(CAPFORMS)):
                for k in range(1, 3):
                    for names in itertools.combinations(NAMES, k):
                        if form and k == 2 and (mon or lib):
                            continue
                        yield mon, lib, form, names


def work(items):
    st = Stats()
    base = core.scratch('mc-c22-')
    try:
        for mon, lib, form, names in items:
            st.states += 1
            names = list(names)
            monn = ['mon-' + n for n in names]
            libn = ['lib-' + n for n in names]
            caps = list(netsim.BASE)
            if mon:
                caps.append(MON)
            if lib:
                caps.append(LIBCAP + '?revision=2016-06-21&module-set-id=1')
            caps += [CAPFORMS[form].format(n) for n in names]
            if mon and works(mon):
                want = listed(mon, monn)
            elif lib and works(lib):
                want = listed(lib, libn)
            else:
                want = sorted(names)
            srv = Server(mon, lib, monn, libn)
            dev, session = netsim.device(caps, srv)
            st.transitions += 1
            st.traces += 1
            bad = None
            try:
                got = dev.models_loadable
                if list(got) != want:
                    bad = 'models_loadable is {}, should be {}'.format(
                        got, want)
                elif list(dev.models_loadable) != want:
                    bad = 'models_loadable changes'
                elif form == 0:
                    folder = os.path.join(base, 'yang')
                    shutil.rmtree(folder, ignore_errors=True)
                    dev.scan_models(folder=folder, download='force')
                    st.transitions += 1
                    files = sorted(f[:-5] for f in os.listdir(folder)
                                   if f.endswith('.yang'))
                    if sorted(srv.asked) != want:
                        bad = 'asks for {}, should be {}'.format(
                            srv.asked, want)
                    elif files != want:
                        bad = 'files of {}, should be {}'.format(files, want)
            except Exception as e:
                bad = '{}: {}'.format(type(e).__name__, e)
            if bad:
                st.violation('{}|{}|{}|{}'.format(mon, lib, form, names),
                             'monitoring: {}, library: {}, capabilities {}: '
                             '{}'.format(mon, lib, caps, bad),
                             {'monitoring': mon, 'library': lib,
                              'caps': caps})
    finally:
        core.rmtree(base)
    return st.dict()


def check(run):
    core.import_ncdiff()
    C = list(cases())
    for r in pmap(work, chunks(C, 64)):
        run.merge(r)
    run.sample({'case': repr(C[-1])})
    run.assumptions.append('a reply without error lists at least one module')
