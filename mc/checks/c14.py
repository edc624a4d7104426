"""C14  A running-config diff depends on what is configured, not on how the
text of the config is written or in which order a device prints orderless
commands."""
import itertools

import core
from core import Stats, pmap, chunks
from rconf import dump, text, seqs_of

# Orderless commands: (depth, lines below the same parent).  The families the
# code documents; every permutation is one state.
ORDERLESS = [
    (0, ['aaa authentication login a local', 'aaa authentication dot1x b x',
         'aaa authentication enable c']),
    (0, ['aaa accounting system default start-stop group a',
         'aaa accounting system default none']),
    (0, ['aaa attribute list a', 'aaa attribute list b']),
    (0, ['aaa group server radius a', 'aaa group server radius b',
         'aaa group server tacacs+ c']),
    (0, ['radius server a', 'radius server b', 'radius server c']),
    (0, ['logging host 1.1.1.1', 'logging host 2.2.2.2',
         'logging host 1.1.1.1 vrf x']),
    (0, ['flow exporter a', 'flow record a', 'flow monitor a']),
    (0, ['flow exporter a', 'flow exporter b', 'flow file-export default']),
    (1, ['exporter a', 'exporter b', 'exporter c']),
    (0, ['dot1x system-auth-control', 'dot1x critical eapol',
         'dot1x logging verbose']),
    (0, ['service-template a', 'service-template b']),
    (0, ['redundancy', 'username a', 'username b']),
    (0, ['parameter-map type webauth a', 'parameter-map type subscriber b']),
    (1, ['match ipv4 protocol', 'match ipv4 source address',
         'match ipv6 protocol']),
    (1, ['match protocol ftp', 'match protocol http',
         'match protocol attribute x']),
    (1, ['collect connection initiator', 'collect connection id']),
    (0, ['l2nat instance a', 'l2nat instance b']),
    (1, ['inside from host 1', 'outside from host 2',
         'inside from network 3']),
    (1, ['outside from network 1', 'inside from range 2',
         'outside from range 3']),
    (1, ['neighbor 1 remote-as 1', 'neighbor 2 remote-as 1',
         'neighbor 1 description x']),
    (2, ['neighbor 1 activate', 'neighbor 2 activate',
         'no neighbor 3 activate']),
    (0, ['crypto keyring a', 'crypto keyring b', 'crypto tls-tunnel c']),
    (1, ['ip helper-address 1', 'ip helper-address 2']),
    (1, ['route-target import 1:1', 'route-target export 1:1',
         'route-target import 2:2']),
    (1, ['default-router 1', 'dns-server 1', 'domain-name x']),
    (1, ['option 43 hex 1', 'option 60 ascii x', 'lease 1']),
    (0, ['vlan group a vlan-list 1', 'vlan group b vlan-list 2']),
    (1, ['ip ospf message-digest-key 1 md5 a',
         'ip ospf message-digest-key 2 md5 b']),
    (1, ['ospfv3 neighbor fe80::1', 'ospfv3 1 ipv6 neighbor fe80::2',
         'ospfv3 1 neighbor fe80::3']),
    (4, ['mobile-network pool 1', 'mobile-network pool 2',
         'mobile-network v6pool 1']),
    (0, ['router bgp 1', 'router ospf 1', 'router eigrp 1']),
    (1, ['area 1 nssa', 'area 2 stub', 'summary-address 1.0.0.0 255.0.0.0']),
    (1, ['redistribute static', 'redistribute connected']),
    (2, ['redistribute static', 'redistribute connected']),
    (3, ['redistribute static', 'redistribute connected']),
    (1, ['distribute-list prefix-list a in',
         'distribute-list prefix-list b out']),
    (0, ['ip dns server', 'ip dns view x', 'ip route 1.0.0.0 255.0.0.0 e1']),
    (0, ['ip route 1.0.0.0 255.0.0.0 e1', 'ip route 2.0.0.0 255.0.0.0 e1',
         'ipv6 route 1::/64 e1']),
    (0, ['ip multicast-routing distributed', 'ip multicast-routing vrf a',
         'ipv6 multicast-routing vrf a']),
    (0, ['ip pim vrf a ssm default', 'ip pim rp-address 1.1.1.1',
         'ip pim rp-address 2.2.2.2']),
    (0, ['ipv6 pim vrf a rp-address 1::1', 'ipv6 pim rp-address 1::1']),
    (0, ['ip access-list extended a', 'ip access-list standard b',
         'ipv6 access-list c']),
    (0, ['ip dhcp pool a', 'ip dhcp pool b', 'ipv6 dhcp pool c']),
    (2, ['bandwidth remaining ratio 1', 'bandwidth remaining ratio 2']),
    (0, ['ntp server 1.1.1.1', 'ntp server 2.2.2.2', 'ntp server vrf x a']),
    (0, ['mpls mldp static 1', 'mpls mldp static 2',
         'mpls ldp advertise-labels for 1']),
    (0, ['device-tracking binding vlan 1', 'device classifier a']),
    (1, ['cdp tlv-type 1', 'lldp tlv-type 5', 'mac Regex x']),
    (0, ['netconf-yang', 'netconf-yang feature candidate-datastore']),
    (1, ['member vni 1', 'member vni 2', 'member vni 3']),
]
# Order matters: these are entered and evaluated from top to bottom, or look
# like an orderless command at another level.
ORDERED = [
    (1, ['permit ip any host 1', 'deny ip any host 2', 'permit ip any any']),
    (1, ['10 permit 1.1.1.1', '20 deny any', 'remark x']),
    (0, ['access-list 1 permit 1', 'access-list 1 deny 2',
         'access-list 1 permit any']),
    (0, ['event manager applet a', 'banner x', 'hostname y']),
    (2, ['class a', 'class b', 'class class-default']),
    (0, ['exporter a', 'exporter b']),
    (2, ['exporter a', 'exporter b']),
    (0, ['match protocol a', 'match protocol b']),
    (1, ['username a', 'username b']),
    (1, ['ntp server 1', 'ntp server 2']),
    (0, ['neighbor 1', 'neighbor 2']),
    (3, ['neighbor 1', 'neighbor 2']),
    (0, ['redistribute static', 'redistribute connected']),
    (4, ['redistribute static', 'redistribute connected']),
    (1, ['a ntp server 1', 'a ntp server 2']),
]


# The first words of the orderless commands of each level, for commands that
# only look like them.
STEMS = {
    0: ['aaa authentication ', 'aaa accounting system default ',
        'aaa attribute list ', 'aaa group server ', 'radius server ',
        'logging host ', 'flow exporter ', 'flow record ', 'flow monitor ',
        'flow file-export ', 'dot1x ', 'service-template ', 'redundancy',
        'username ', 'parameter-map type ', 'l2nat instance ',
        'crypto keyring ', 'crypto tls-tunnel ', 'vlan group ', 'router ',
        'ip dns ', 'ip route ', 'ipv6 route ', 'ip multicast-routing ',
        'ipv6 multicast-routing ', 'ip pim vrf ', 'ipv6 pim vrf ',
        'ip pim rp-address ', 'ipv6 pim rp-address ', 'ip access-list ',
        'ipv6 access-list ', 'ip dhcp pool ', 'ipv6 dhcp pool ',
        'ntp server ', 'mpls mldp static ', 'mpls ldp advertise-labels for ',
        'device-tracking binding ', 'device classifier ', 'netconf-yang'],
    1: ['exporter ', 'match ipv4 ', 'match ipv6 ', 'match protocol ',
        'collect connection ', 'inside from host ', 'outside from host ',
        'inside from network ', 'outside from network ',
        'inside from range ', 'outside from range ', 'neighbor ',
        'ip helper-address ', 'route-target import ', 'route-target export ',
        'default-router ', 'dns-server ', 'domain-name ', 'option ',
        'lease ', 'ip ospf message-digest-key ', 'ospfv3 neighbor ',
        'ospfv3 1 ipv4 neighbor', 'ospfv3 1 ipv6 neighbor',
        'ospfv3 1 neighbor ', 'area ', 'redistribute ',
        'distribute-list prefix-list ', 'cdp tlv-type ', 'lldp tlv-type ',
        'mac Regex ', 'summary-address ', 'member vni '],
    2: ['neighbor ', 'no neighbor ', 'redistribute ',
        'bandwidth remaining ratio '],
    3: ['redistribute '],
    4: ['mobile-network pool ', 'mobile-network v6pool '],
}


def lookalikes():
    """('ordered', depth, two lines): no orderless command among them."""
    out = []
    for stem in sorted(set(sum(STEMS.values(), []))):
        for depth in range(6):
            for a, b in ((stem + '1', stem + '2'), (stem + ' 1', stem + ' 2'),
                         (stem.strip() + '-x 1', stem.strip() + '-x 2'),
                         ('no ' + stem + '1', 'no ' + stem + '2'),
                         ('a ' + stem + '1', 'a ' + stem + '2'),
                         ('a' + stem + '1', 'a' + stem + '2'),
                         (' '.join(stem.split()[:-1] + ['1']),
                          ' '.join(stem.split()[:-1] + ['2']))):
                known = tuple(STEMS.get(depth, ()))
                if depth == 1 and ' tlv-type ' in a:
                    continue
                if not a.startswith(known) and not b.startswith(known):
                    out.append(('ordered', depth, [a, b]))
    return out


def wrap(depth, kids):
    for d in range(depth):
        kids = (('level {}'.format(depth - d), kids),)
    return kids


def leafs(lines):
    return tuple((l, None) for l in lines)


def empty(x, y, st, key, what, want=True):
    from ncdiff.runningconfig import RunningConfigDiff
    st.transitions += 1
    case = {'running1': x, 'running2': y}
    try:
        r = RunningConfigDiff(x, y)
        ok = (not r, not r.diff, not str(r), not r.diff_reverse)
    except Exception as e:
        st.violation(key, '{}: {}\n{}\n{}'.format(type(e).__name__, e, x, y),
                     case)
        return
    st.traces += 1
    if ok != (want,) * 4:
        st.violation(key, '{}: diff {}\nrunning1\n{}\nrunning2\n{}'.format(
            what, r.diff, x, y), case)


def orders(st, item):
    kind, depth, lines = item
    free = kind == 'orderless'
    base = leafs(lines)
    for kids in ((None, (('x', None), ('y', None))) if free else (None,)):
        for fix in ((), ('zzz',), ('zzz', 'zzy')):
            # order-sensitive lines before and after
            for perm in itertools.permutations(base):
                st.states += 1
                a = tuple((l, kids if i == 0 else None)
                          for i, (l, k) in enumerate(base))
                b = tuple((l, dict(a)[l]) for l, k in perm)
                if len(fix) > 0:
                    a, b = ((fix[0], None),) + a, ((fix[0], None),) + b
                if len(fix) > 1:
                    a, b = a + ((fix[1], None),), b + ((fix[1], None),)
                x, y = dump(wrap(depth, a)), dump(wrap(depth, b))
                same = free or perm == base
                empty(x, y, st, 'order|{}|{}'.format(x, y),
                      'order of {} commands'.format(kind), same)
    if free:
        # a change next to reordered lines: only the change is reported
        from ncdiff.runningconfig import RunningConfigDiff
        for perm in itertools.permutations(base):
            x = dump(wrap(depth, base))
            for b in (perm + (('new', None),), (('new', None),) + perm):
                st.transitions += 1
                st.traces += 1
                y = dump(wrap(depth, b))
                r = RunningConfigDiff(x, y)
                got = [l for l in str(r).splitlines() if l[0] != ' ']
                back = [l for l in str(RunningConfigDiff(y, x)).splitlines()
                        if l[0] != ' ']
                if [(l[0], l[1:].strip()) for l in got] != [('+', 'new')] or \
                   [(l[0], l[1:].strip()) for l in back] != [('-', 'new')]:
                    st.violation('order+|{}|{}'.format(x, y),
                                 'diff\n{}back {}\nrunning1\n{}running2\n{}'
                                 .format(r, back, x, y),
                                 {'running1': x, 'running2': y})


# ---- ways to write one config ----------------------------------------------
def trees(thorough):
    flat = seqs_of(['a', 'b'], 2)
    secs = [None] + [k for k in seqs_of(['x', 'y'], 2) if k] + [
        (('m', (('x', None),)),), (('m', (('x', None), ('y', None))),
                                   ('y', None)),
        (('y', None), ('m', (('n', (('x', None),)),)))]
    out = [f for f in flat]
    out += [(('sec 1', k),) for k in secs]
    out += [(('a', None), ('sec 1', k)) for k in secs]
    out += [(('sec 1', k), ('sec 2', (('x', None),))) for k in secs]
    if thorough:
        out += [(('sec 1', k), ('sec 2', j)) for k in secs for j in secs]
    return list(dict.fromkeys(out))


NOISE = ['!', ' !', '   ! comment', '!x', '', '   ', '% warning', ' % w']


def writings(tree, thorough):
    """(name, text): all writings of one config, one deviation at a time and
    a few combined."""
    for w in (2, 3, 4):
        yield 'indent {}'.format(w), dump(tree, w)
    for w in (1, 2):
        rows = text(tree, w)
        yield 'no final newline {}'.format(w), '\n'.join(rows)
        yield 'crlf {}'.format(w), '\r\n'.join(rows) + '\r\n'
        yield 'trailing blanks {}'.format(w), '  \n'.join(rows) + '  \n'
        for i in range(len(rows)):
            yield 'trailing blank {} {}'.format(w, i), '\n'.join(
                rows[:i] + [rows[i] + ' '] + rows[i + 1:]) + '\n'
        for n in NOISE:
            yield 'all {!r} {}'.format(n, w), '\n'.join(
                [n] + [v for r in rows for v in (r, n)]) + '\n'
            for i in range(len(rows) + 1):
                yield '{!r} {} at {}'.format(n, w, i), '\n'.join(
                    rows[:i] + [n] + rows[i:]) + '\n'
        if thorough:
            for (i, n), (j, m) in itertools.combinations(
                    [(i, n) for i in range(len(rows) + 1)
                     for n in NOISE[:6]], 2):
                yield '{} {!r} {} {!r}'.format(i, n, j, m), '\n'.join(
                    rows[:i] + [n] + rows[i:j] + [m] + rows[j:]) + '\n'
        for head in (['Building configuration...'],
                     ['Current configuration : 1234 bytes'],
                     ['Building configuration...', '',
                      'Current configuration : 1234 bytes', '!',
                      '! Last configuration change at 11:46:02 UTC']):
            yield 'head {}'.format(head), '\n'.join(head + rows) + '\n'


def answers(x, y):
    from ncdiff.runningconfig import RunningConfigDiff
    r = RunningConfigDiff(x, y)
    return (r.diff, r.diff_reverse, str(r), r.cli, r.cli_reverse, bool(r))


def styles(st, idx, thorough):
    for i in idx:
        t = T[i]
        st.states += 1
        x = dump(t)
        others = [T[j] for j in range(0, len(T), 5)]
        ref = [(answers(x, dump(o)), answers(dump(o), x)) for o in others]
        for name, w in writings(t, thorough):
            key = 'style|{}|{}'.format(name, x)
            empty(x, w, st, key, name)
            empty(w, x, st, key + '|2', name)
            for o, (want, back) in zip(others, ref):
                st.transitions += 1
                st.traces += 1
                y = dump(o)
                try:
                    got = (answers(w, y), answers(y, w))
                except Exception as e:
                    got = repr(e)
                if got != (want, back):
                    st.violation(
                        key + '|' + y,
                        '{}: {}\ninstead of {}\nrunning1\n{}\nrunning2\n{}'
                        .format(name, got, (want, back), w, y),
                        {'running1': w, 'running2': y})


# ---- exits of router lisp ---------------------------------------------------
def lisp(st):
    def cfg(n, inner, outer):
        out = ['router lisp']
        for i in range(n):
            out += [' locator-set R{}'.format(i),
                    '  IPv4-interface Loopback1 priority 100 weight 50',
                    '  ' + inner[i], ' !']
        return '\n'.join(out + [' ' + outer, '!']) + '\n'
    for n in (1, 2, 3):
        forms = [cfg(n, i, o)
                 for i in itertools.product(['exit', 'exit-locator-set'],
                                            repeat=n)
                 for o in ('exit', 'exit-router-lisp')]
        for x, y in itertools.product(forms, forms):
            st.states += 1
            empty(x, y, st, 'lisp|{}|{}'.format(x, y), 'exits of router lisp')
        for x, y in itertools.product(forms, forms):
            z = y.replace('weight 50', 'weight 51', 1)
            empty(x, z, st, 'lisp|{}|{}'.format(x, z),
                  'changed locator-set', False)


# ---- clients without indentation ------------------------------------------
def odd(kids, pre=(), post=(), end=()):
    """As a device prints the clients: from the second on, they and their
    children stand at the level of the children of the first one."""
    out = ['aaa server radius proxy'] + [' ' + p for p in pre]
    for i, (c, sub) in enumerate(kids):
        out.append((' ' if i == 0 else '  ') + 'client ' + c)
        out += ['  ' + s for s in sub]
        out.append('  !')
    out += [' ' + p for p in post] + list(end)
    return '\n'.join(out) + '\n'


def regular(kids, pre=(), post=(), end=()):
    out = ['aaa server radius proxy'] + [' ' + p for p in pre]
    for c, sub in kids:
        out.append(' hclient ' + c)
        out += ['  ' + s for s in sub]
    out += [' ' + p for p in post] + list(end)
    return '\n'.join(out) + '\n'


def plain(*args):
    return regular(*args).replace('hclient', 'client')


def renamed(x):
    if isinstance(x, (list, tuple)):
        return [renamed(i) for i in x]
    return x.replace('hclient', 'client') if isinstance(x, str) else x


def lists(x):
    return [lists(i) for i in x] if isinstance(x, (list, tuple)) else x


def clients(st, thorough, part=(0, 1)):
    subs = [(), ('accounting port 1',), ('accounting port 2',),
            ('accounting port 1', 'timer disconnect acct-stop 2')]
    if not thorough:
        subs = subs[:2] + subs[3:]
    names = ['10.0.0.0', '11.0.0.0', '12.0.0.0']
    cfgs = [tuple(zip(ns, ss)) for k in range(1, 4)
            for ns in itertools.combinations(names, k)
            for ss in itertools.product(subs, repeat=k)]
    if not thorough:
        cfgs = [c for c in cfgs if len(c) < 3] + \
            [c for c in cfgs if len(c) == 3][::3]
    cfgs = [(c,) for c in cfgs]
    # with other lines in and after the section
    more = [(c[0], pre, post, end) for c in cfgs if len(c[0]) < 4 and not any(
        len(s) > 1 for _, s in c[0])
        for pre in ((), ('key a',)) for post in ((), ('zone b',), (
            'zone b', 'zone c'))
        for end in ((), ('aaa x', 'interface e1', ' client z'))
        if thorough or len(c[0]) != 1]
    pairs = list(itertools.product(cfgs, cfgs)) + [
        (a, b) for a in more for b in more
        if thorough or a[1:] == b[1:] or a[0] == b[0]]
    for c, d in pairs[part[0]::part[1]]:
        st.states += 1
        st.transitions += 1
        st.traces += 1
        want = renamed(answers(regular(*c), regular(*d)))
        forms = [(odd, odd)]
        if len(c) > 1:
            # indented as any other section
            forms += [(plain, plain), (odd, plain)]
        for f, g in forms:
            x, y = f(*c), g(*d)
            key = 'client|{}|{}'.format(x, y)
            try:
                got = lists(answers(x, y))
            except Exception as e:
                got = repr(e)
            if got != want:
                st.violation(key, 'clients: {}\ninstead of {}\nrunning1\n{}'
                             'running2\n{}'.format(got, want, x, y),
                             {'running1': x, 'running2': y})


def classes(st):
    """Children that are displayed with less indentation than their
    parent."""
    hexes = ('relay-information hex 01', 'relay-information hex 02',
             'relay-information hex 03*')
    cfgs = []
    for n in range(4):
        for kids in itertools.permutations(hexes, n):
            for second in ((), hexes[:1], hexes[:2]):
                for end in ((), ('ip dhcp use class',)):
                    cfgs.append((kids, second, end))

    def text(cfg, regular):
        kids, second, end = cfg
        out = ['ip dhcp class C1', '   relay agent information']
        out += [('     ' if regular else '  ') + k for k in kids]
        if second:
            out += ['ip dhcp class C2', '   relay agent information']
            out += [('     ' if regular else '  ') + k for k in second]
        return '\n'.join(out + list(end)) + '\n'
    for c, d in itertools.product(cfgs, cfgs):
        st.states += 1
        want = answers(text(c, True), text(d, True))
        for f, g in ((False, False), (False, True), (True, False)):
            x, y = text(c, f), text(d, g)
            st.transitions += 1
            st.traces += 1
            try:
                got = answers(x, y)
            except Exception as e:
                got = repr(e)
            if got != want:
                st.violation('class|{}|{}'.format(x, y), 'less indentation: '
                             '{}\ninstead of {}\nrunning1\n{}running2\n{}'
                             .format(got, want, x, y),
                             {'running1': x, 'running2': y})


T = None
THOROUGH = False


def work(item):
    st = Stats()
    kind = item[0]
    if kind in ('orderless', 'ordered'):
        orders(st, item)
    elif kind == 'looks':
        for i in item[1]:
            orders(st, i)
    elif kind == 'style':
        styles(st, item[1], THOROUGH)
    elif kind == 'lisp':
        lisp(st)
    elif kind == 'class':
        classes(st)
    elif kind == 'client':
        clients(st, THOROUGH, item[1])
    return st


def check(run):
    global T, THOROUGH
    core.import_ncdiff()
    THOROUGH = run.thorough
    T = trees(run.thorough)
    items = [('client', (i, 16)) for i in range(16)] + [('lisp',), ('class',)]
    items += [('style', c) for c in chunks(range(len(T)), 24)]
    items += [('orderless', d, l) for d, l in ORDERLESS]
    items += [('ordered', d, l) for d, l in ORDERED]
    looks = lookalikes()
    items += [('looks', looks[i::16]) for i in range(16)]
    for r in pmap(work, items):
        run.merge(r)
    run.extra.update(lookalikes=len(looks), trees=len(T), orderless_families=len(ORDERLESS),
                     ordered_families=len(ORDERED))
    run.assumptions += [
        'one indentation width per text; tabs are not used',
        'orderless lines are permuted between order-sensitive lines, not '
        'across them']
