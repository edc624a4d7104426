"""C02  Predicted configs: c1 + delta == c2, deltas are reversible, and the
prediction equals what the reference server computes from the same delta."""
import confcommon as cc
from checks.c01 import OPTS, ostr, cc_str
from core import Stats, pmap
from data import ServerError, DecodeError, to_xml, canon


# quick tier: every value of every option, not every combination
QUICK = [OPTS[i] for i in (0, 2, 5, 7, 8, 11)] + OPTS[12::2]
BACK = [OPTS[0], OPTS[7], OPTS[11], OPTS[14]]


def work(item):
    from ncdiff import ConfigDelta
    name, idx = item
    st = Stats()
    cfg = cc.build(name)
    for i in idx:
        st.states += 1
        d1, k1, c1 = cfg[i]
        for d2, k2, c2 in cfg:
            key = '{}|{}|{}'.format(name, to_xml(cc.ENV.schema, d1),
                                    to_xml(cc.ENV.schema, d2))

            def expect(label, want, func):
                st.transitions += 1
                case = {'slice': name, 'src': c1.xml, 'dst': c2.xml,
                        'law': label}
                try:
                    r = func()
                    got = cc.dec(r.ele)
                except Exception as e:
                    st.violation(key + '|' + label,
                                 '{} fails: {}\nsrc {}\ndst {}'.format(
                                     label, cc.short(e), c1.xml, c2.xml),
                                 case)
                    return
                if got != want:
                    st.violation(key + '|' + label,
                                 '{} gives {}\nsrc {}\ndst {}'.format(
                                     label, r.xml, c1.xml, c2.xml), case)

            expect('c1 - (c1 - c2)', k2, lambda: c1 - (c1 - c2))
            expect('c2 + -(c2 - c1)', k1, lambda: c2 + -(c2 - c1))
            expect('(c2 - c1) + c1', k2, lambda: (c2 - c1) + c1)
            expect('c1 + +(c2 - c1)', k2, lambda: c1 + +(c2 - c1))
            # config merge: what the server has after merging c2 into c1
            try:
                km = canon(cc.ENV.schema, cc.SRV.edit(d1, c2.ele))
            except ServerError:
                km = None
            if km is not None:
                expect('c1 + c2', km, lambda: c1 + c2)
            for o in (OPTS if cc.THOROUGH else QUICK):
                d = ConfigDelta(config_src=c1, config_dst=c2, **o)
                expect('c1 + delta(%s)' % ostr(o), k2, lambda: c1 + d)
                # the wire form of the delta, parsed back
                if o in BACK:
                    def back(o=o, d=d):
                        x = ConfigDelta(config_src=c1, delta=cc_str(d.nc))
                        return x.config_dst
                    expect('ConfigDelta(c1, delta=xml(%s)).config_dst'
                           % ostr(o), k2, back)
    st.traces = st.transitions
    st.sample({'slice': name, 'src': cfg[idx[0]][2].xml,
               'dst': cfg[-1][2].xml})
    return st


def check(run):
    cc.setup(run.thorough)
    try:
        for r in pmap(work, cc.work_items()):
            run.merge(r)
        run.extra['slices'] = {k: len(v) for k, v in cc.SL.items()}
        run.extra['options'] = len(OPTS if run.thorough else QUICK)
        run.assumptions += [
            'prefixes used in identityref/instance-identifier values are '
            'declared on the enclosing top-level container',
            'c1 + c2 is judged by the reference server of C01']
    finally:
        cc.teardown()
