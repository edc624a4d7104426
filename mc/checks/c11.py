"""C11  Randomised deltas: a permutation of the plain delta at the chosen level
and nowhere else, list keys first, reproducible from the seed, and with the
same effect on the server."""
from collections import Counter

import confcommon as cc
from checks.c01 import cc_str
from core import Stats, pmap
from data import ServerError, DecodeError, canon, to_xml

DEPTHS = (0, 1, 2, 3)
SEEDS = (3, 1000)
# The order of user-ordered entries is part of the meaning of a delta, so the
# effect is compared only where there are none.
ORDERED = ('top', 'augkey', 'leaf', 'aug', 'fleaf', 'olist', 'oleaf', 'oboth', 'mkey',
           'idord', 'values', 'mix', 'nord', 'sord', 'aord', 'zent', 'long',
           'two')


def sig(e, depth, level=0):
    """Hashable form of a subtree; children at the shuffled level as a bag."""
    kids = [sig(c, depth, level + 1) for c in e]
    if level == depth:
        kids = tuple(sorted(Counter(kids).items(), key=repr))
    else:
        kids = tuple(kids)
    return (e.tag, e.text, tuple(sorted(e.attrib.items())), kids)


def keys_first(e):
    """No key of a list entry stands after a node that is not a key."""
    for x in e.iter():
        n = node_of(x, e)
        if n is None or n.kind != 'list':
            continue
        k = len(n.keys)
        for c in list(x)[k:]:
            if c.tag in ['{%s}%s' % (n.ns, y) for y in n.keys]:
                return False
    return True


def node_of(x, root):
    path = []
    while x is not root:
        path.append(x.tag)
        x = x.getparent()
    n = cc.ENV.schema.top
    for t in reversed(path):
        n = cc.ENV.schema.kids(n).get(t)
        if n is None:
            return None
    return n


def one(name, d1, c1, d2, k2, c2, st, orders):
    from ncdiff import ConfigDelta
    key = '{}|{}|{}'.format(name, to_xml(cc.ENV.schema, d1),
                            to_xml(cc.ENV.schema, d2))
    case = {'src': c1.xml, 'dst': c2.xml}
    plain = ConfigDelta(config_src=c1, config_dst=c2).nc
    sigs = {k: sig(plain, k) for k in DEPTHS}
    for depth in DEPTHS:
        for seed in SEEDS:
            o = dict(random_depth=depth, random_seed=seed)
            st.transitions += 1
            case = dict(case, options=o)
            w = '{}|{}|{}'.format(key, depth, seed)
            try:
                delta = ConfigDelta(config_src=c1, config_dst=c2, **o)
                nc = delta.nc
                x1 = cc_str(nc)
                x2 = cc_str(delta.nc)
                x3 = cc_str(ConfigDelta(config_src=c1, config_dst=c2, **o).nc)
            except Exception as e:
                st.violation(w, 'no delta: ' + cc.short(e), case)
                continue
            if sig(nc, depth) != sigs[depth]:
                st.violation(w + '|perm', 'depth {} is not a permutation of '
                             'that level:\n{}\n{}'.format(
                                 depth, cc_str(plain), x1), case)
            if not keys_first(nc):
                st.violation(w + '|keys', 'keys are not first: ' + x1, case)
            if not x1 == x2 == x3:
                st.violation(w + '|seed', 'the same seed gives\n{}\n{}\n{}'
                             .format(x1, x2, x3), case)
            if delta.random_seed != seed or delta.random_depth != depth:
                st.violation(w + '|attr', 'attributes {} {}'.format(
                    delta.random_depth, delta.random_seed), case)
            if name not in ORDERED:
                st.traces += 1
                try:
                    r = canon(cc.ENV.schema, cc.SRV.edit(d1, nc))
                except (ServerError, DecodeError) as e:
                    st.violation(w + '|server', 'rejected: {}\n{}'.format(
                        e, x1), case)
                    continue
                if r != k2:
                    st.violation(w + '|server', 'does not lead to dst\nsrc {}'
                                 '\ndst {}\ndelta {}'.format(
                                     c1.xml, c2.xml, x1), case)


def work(item):
    name, idx = item
    st = Stats()
    cfg = cc.build(name)
    for i in idx:
        st.states += 1
        d1, k1, c1 = cfg[i]
        for d2, k2, c2 in cfg:
            one(name, d1, c1, d2, k2, c2, st, None)
    st.sample({'slice': name, 'src': cfg[idx[0]][2].xml,
               'dst': cfg[-1][2].xml})
    return st


def arguments(run):
    """Depth and seed arguments, all combinations."""
    from ncdiff import Config, ConfigDelta
    c1 = Config(cc.ENV.dev)
    c2 = Config(cc.ENV.dev, '<nc:config xmlns:nc="urn:ietf:params:xml:ns:'
                'netconf:base:1.0"><c xmlns="%s"><a>1</a><d>8</d><sl>1</sl>'
                '<sl>2</sl></c></nc:config>' % cc.MAIN)
    bad = object()
    for depth in (None, 0, 1, 2, 5, -1, '1', 1.5, bad):
        for seed in (None, 0, 1, -7, 10 ** 12, '1', 2.5, bad):
            run.transitions += 1
            key = 'args|{}|{}'.format(
                *('object' if x is bad else repr(x) for x in (depth, seed)))
            want_err = not (depth is None or (isinstance(depth, int) and
                                              depth >= 0)) or \
                not (seed is None or isinstance(seed, int))
            try:
                d = ConfigDelta(config_src=c1, config_dst=c2,
                                random_depth=depth, random_seed=seed)
            except ValueError:
                if not want_err:
                    run.violation(key, 'rejected', {})
                continue
            except Exception as e:
                run.violation(key, 'raises ' + cc.short(e), {})
                continue
            if want_err:
                run.violation(key, 'accepted', {})
                continue
            if d.random_depth != depth:
                run.violation(key, 'random_depth is {!r}'.format(
                    d.random_depth), {})
            if depth is None:
                ok = d.random_seed is None
            elif seed is None:
                ok = isinstance(d.random_seed, int)
            else:
                ok = d.random_seed == seed
            if not ok:
                run.violation(key, 'random_seed is {!r}'.format(
                    d.random_seed), {})
            xs = [cc_str(d.nc) for _ in range(3)]
            if len(set(xs)) != 1:
                run.violation(key, 'unstable: {}'.format(xs), {})
            if depth is not None:
                # the seed that is reported reproduces the delta
                d2 = ConfigDelta(config_src=c1, config_dst=c2,
                                 random_depth=depth,
                                 random_seed=d.random_seed)
                if cc_str(d2.nc) != xs[0]:
                    run.violation(key, 'seed {} does not reproduce {}'.format(
                        d.random_seed, xs[0]), {})
            # changing the seed afterwards
            for s2 in (None, 5, '5'):
                run.transitions += 1
                try:
                    d.random_seed = s2
                except ValueError:
                    if s2 != '5':
                        run.violation(key, 'seed {!r} rejected'.format(s2), {})
                    continue
                if s2 == '5':
                    run.violation(key, "seed '5' accepted", {})
                if depth is None and d.random_seed is not None:
                    run.violation(key, 'seed without depth', {})
                if depth is not None and not (
                        d.random_seed == 5 if s2 else
                        isinstance(d.random_seed, int)):
                    run.violation(key, 'seed {!r} for {!r}'.format(
                        d.random_seed, s2), {})
    # different seeds really shuffle
    seen = set()
    for seed in range(20):
        run.transitions += 1
        seen.add(cc_str(ConfigDelta(config_src=c1, config_dst=c2,
                                    random_depth=1, random_seed=seed).nc))
    if len(seen) < 2:
        run.violation('args|shuffle', 'seeds 0..19 give one order', {})
    run.extra['orders_of_4_siblings_over_20_seeds'] = len(seen)


def check(run):
    cc.setup(run.thorough)
    try:
        arguments(run)
        for r in pmap(work, cc.work_items()):
            run.merge(r)
        run.extra['slices'] = {k: len(v) for k, v in cc.SL.items()}
        run.extra['depths'] = list(DEPTHS)
        run.extra['seeds'] = list(SEEDS)
        run.assumptions += ['the effect on the server is compared on slices '
                            'without user-ordered nodes']
    finally:
        cc.teardown()
