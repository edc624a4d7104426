"""C13  The CLI of a running-config diff, typed into a device that runs
running1, leaves running2 -- and the reverse CLI leads back."""
import itertools

import core
from core import Stats, pmap, chunks
from rconf import dump, bag, parse

# ---- the device ----------------------------------------------------------
# A config mode holds lines and sub-modes.  Four kinds of commands:
#  * plain: shown when given, gone after "no";
#  * default-on, hidden: only the "no" form is shown;
#  * default-on, visible: either the command or its "no" form is shown;
#  * single-valued: a new value replaces the old one.
HIDDEN = ('service pad', 'switchport')
VISIBLE = ('platform shell', 'negotiation auto')
SINGLE = ('hostname ', 'username u privilege 15 password ', 'description ',
          'ip address ', 'license boot level ',
          'transport input ', 'transport output ', 'password ',
          'service timestamps debug datetime')
# "no <prefix>" is enough for these, and the full line is rejected
SHORT = ('license boot level', 'transport input', 'transport output',
         'ip address', 'ipv6 address')
# shown as "no ip address" when there is none
NEGATED = ('ip address',)
# shown beside its own extensions, and implied by them
IMPLIED = ('exception crashinfo', 'exception crashinfo file', 'spanning-tree')
# shown beside its own extensions, not implied
COEXIST = ('snmp-server manager', 'ip multicast-routing',
           'ip dhcp relay information option')
INCOMPLETE = SHORT + ('hostname', 'description', 'password', 'username')
SECTIONS = ('interface ', 'router ', 'address-family ', 'line ', 'vlan ',
            'locator-set ')
# shown at the end of a mode, no config of their own
EXITS = ('exit', 'exit-address-family', 'exit-locator-set',
         'exit-router-lisp')


class Reject(Exception):
    pass


def run_cli(state, cmds):
    """state: {line: None or dict}, modified in place."""
    for cmd, kids in cmds:
        if cmd.startswith('no '):
            if kids:
                raise Reject('a mode below {!r}'.format(cmd))
            negative(state, cmd[3:])
        else:
            positive(state, cmd, kids)


def primary(l):
    return l.startswith('ip address ') and not l.endswith(' secondary')


def section(cmd):
    return cmd.startswith(SECTIONS)


def positive(state, cmd, kids):
    if cmd in EXITS and not kids:
        return
    if cmd in INCOMPLETE:
        raise Reject('incomplete command {!r}'.format(cmd))
    if section(cmd):
        if state.get(cmd) is None:
            state[cmd] = {}
        run_cli(state[cmd], kids)
        return
    if kids:
        raise Reject('{!r} is not a mode'.format(cmd))
    state.pop('no ' + cmd, None)
    if cmd in HIDDEN:
        return
    # two commands, when one contains the other, do not coexist
    for l in [l for l in state if cmd.startswith(l + ' ')]:
        if l not in IMPLIED + COEXIST:
            del state[l]
    for l in IMPLIED:
        if cmd.startswith(l + ' '):
            state[l] = None
    if cmd.startswith('ip address ') and cmd.endswith(' secondary'):
        if not any(primary(l) for l in state):
            raise Reject('no primary address for {!r}'.format(cmd))
        state[cmd] = None
        return
    for p in SINGLE:
        if cmd.startswith(p):
            for l in [l for l in state if l.startswith(p) and (
                    p != 'ip address ' or primary(l))]:
                del state[l]
            state.pop('no ' + p.strip(), None)
    state[cmd] = None


def negative(state, cmd):
    if cmd.startswith('no ') or cmd in EXITS:
        raise Reject('no {!r}'.format(cmd))
    for p in SHORT:
        if cmd.startswith(p + ' '):
            raise Reject('no {!r}: too long'.format(cmd))
    if cmd in HIDDEN + VISIBLE + NEGATED:
        for l in [l for l in state if l == cmd or l.startswith(cmd + ' ')]:
            del state[l]
        state['no ' + cmd] = None
        return
    gone = [l for l in state if l == cmd or l.startswith(cmd + ' ')]
    if not gone:
        raise Reject('nothing to remove for no {!r}'.format(cmd))
    for l in gone:
        del state[l]


def device(tree):
    return {l: (device(k or ()) if section(l) else None) for l, k in tree}


def shape(state):
    return {l: (shape(v) if v else None) for l, v in state.items()}


def typed(tree, cli):
    state = device(tree)
    run_cli(state, parse(cli))
    return shape(state)


# ---- configs --------------------------------------------------------------
def attrs(*alts):
    """All configs over attributes; an attribute is a list of lines (None:
    absent)."""
    return [tuple((l, None) for l in c if l) for c in itertools.product(*alts)]


def apart(lines, *others):
    """The lines with each of the others after one of them."""
    ret = list(lines)
    for n, o in enumerate(others):
        ret.insert(min(2 * n + 1, len(ret)), o)
    return tuple(ret)


def universe(thorough):
    U = {}
    U['global'] = attrs(
        [None, 'hostname r1', 'hostname r10'],
        [None, 'service timestamps debug datetime msec',
         'service timestamps debug datetime msec localtime'],
        ['platform shell', 'no platform shell'],
        [None, 'no service pad'],
        [None, 'username u privilege 15 password 0 a',
         'username u privilege 15 password 7 b'],
        [None, 'license boot level x addon y'] +
        (['license boot level z'] if thorough else []))
    n = ['ntp server 10.0.0.1', 'ntp server 10.0.0.10', 'ntp server 10.0.0.2',
         'ntp peer 10.0.0.1', 'ntp']
    multi = attrs(*[[None, x] for x in n[:4]], [None, 'logging on'],
                  [None, 'logging on-error'])
    U['multi'] = multi + [tuple(reversed(t)) for t in multi if len(t) > 1]
    U['sections'] = [
        tuple(t) for t in itertools.product(
            *[[None, (i, None), (i, (('shutdown', None),))]
              for i in ('interface e1', 'interface e10', 'vlan 1',
                        'vlan 10')])]
    U['sections'] = [tuple(x for x in t if x) for t in U['sections']]
    body = attrs([None, 'description x', 'description xy', 'description x y'],
                 ['no ip address', 'ip address 1.1.1.1 255.0.0.0',
                  'ip address 1.1.1.1 255.0.0.0 tag 1'],
                 [None, 'ipv6 address 1::1/64', 'ipv6 address 1::2/64'],
                 [None, 'shutdown'],
                 [None, 'no switchport'],
                 ['negotiation auto', 'no negotiation auto']
                 if thorough else [None])
    U['interface'] = [()] + [(('interface e1', k),) for k in body] + (
        [(('interface e1', k), ('interface e10', body[3])) for k in body]
        if thorough else [])
    U['line'] = [()] + [(('line vty 0 4', k),) for k in
                        [None] + attrs([None, 'password 0 a', 'password 7 b'],
                                       [None, 'transport input ssh',
                                        'transport input telnet ssh'],
                                       [None, 'login', 'login local']) if k
                        is None or k] + [(('line vty 0 4', None),)]
    af = [None] + [k for k in attrs([None, 'neighbor 1 activate'],
                                    [None, 'neighbor 10 activate'],
                                    [None, 'redistribute static',
                                     'redistribute static metric 1']) if k]
    U['nested'] = [()] + [
        (('router bgp 1', tuple(x for x in t if x) or None),)
        for t in itertools.product(
            [None, ('neighbor 1 remote-as 1', None)],
            [None] + [('address-family ipv4', k) for k in af],
            [None] + [('address-family ipv6', k)
                      for k in (af if thorough else af[:2])])]
    # modes that end with a line of their own
    for end in (1, 2):
        U['bgp exits {}'.format(end)] = U['nested']
    ls = [None] + [k for k in attrs([None, 'IPv4-interface Lo1 priority 1'],
                                    [None, 'IPv4-interface Lo2 priority 1'],
                                    [None, 'auto-discover-rlocs']) if k]
    lisp = [()] + [
        (('router lisp', tuple(x for x in t if x) or None),)
        for t in itertools.product(
            [None, ('disable-ttl-propagate', None)],
            [None] + [('locator-set A', k) for k in ls],
            [None] + [('locator-set B', k)
                      for k in (ls if thorough else ls[:3])])]
    for end in (1, 2):
        U['lisp exits {}'.format(end)] = lisp
    # commands whose first words go on like those of other commands
    stems = [('description', ' x', ' y'), ('password', ' 0 a', ' 7 b'),
             ('ip address', ' 1.1.1.1 255.0.0.0', ' 2.1.1.1 255.0.0.0'),
             ('ipv6 address', ' 1::1/64', ' 1::2/64'),
             ('username u privilege 15 password', ' 0 a', ' 7 b'),
             ('license boot level', ' x', ' y'),
             ('transport input', ' ssh', ' telnet'),
             ('transport output', ' ssh', ' telnet'),
             ('hostname', ' a', ' b')]
    for c, x, y in stems:
        k = attrs(
            ([None] if c != 'ip address' else ['no ip address']) +
            [c + x, c + y],
            *[[None, c + d + ' u', c + d + ' v']
              for d in ('-more', 's') + (('-',) if thorough else ())])
        U['like ' + c] = k
        U['like ' + c + ' in a mode'] = [
            (('line vty 0 4', i),) for i in k if i]
    k = attrs(['platform shell', 'no platform shell'],
              [None, 'platform shells'], [None, 'platform shell-x y'],
              [None, 'no service pad'], [None, 'service pads'],
              [None, 'service pad-x'])
    U['like defaults'] = k
    # several addresses
    s1, s2 = ['ip address {}.1.1.1 255.0.0.0 secondary'.format(i)
              for i in (5, 6)]
    ips = [('no ip address',)] + [
        (p,) + s for p in ('ip address 1.1.1.1 255.0.0.0',
                           'ip address 2.1.1.1 255.0.0.0')
        for s in ((), (s1,), (s2,), (s1, s2))]
    v6 = ['ipv6 address {}::1/64'.format(i) for i in (1, 2, 3)]
    U['addresses'] = [
        (('interface e1', tuple((l, None) for l in ip + six + end)),)
        for ip in ips for end in ((), ('shutdown',))
        for six in itertools.chain(*[itertools.combinations(v6, n)
                                     for n in range(4)])]
    # and other commands between them
    U['addresses apart'] = [
        (('interface e1', tuple((l, None) for l in t)),)
        for t in itertools.chain(
            *[(ip + six, apart(ip + six, 'mtu 9'),
               apart(ip + six, 'mtu 9', 'shutdown'))
              for ip in ips for six in ((), (v6[0],), tuple(v6[:2]),
                                        tuple(v6[1::-1]), tuple(v6[1:]))])]
    # commands shown beside their extensions
    imp = [()] + [('exception crashinfo',) + e for e in (
        (), ('exception crashinfo size 9',),
        ('exception crashinfo file', 'exception crashinfo file bootflash:x'),
        ('exception crashinfo file', 'exception crashinfo size 9'),
        ('exception crashinfo file', 'exception crashinfo file bootflash:x',
         'exception crashinfo size 9'))]
    imp = [a + b + c for a in imp for b in ((), ('exceptions x',))
           for c in ((), ('spanning-tree',),
                     ('spanning-tree', 'spanning-tree cost 1'))]
    imp += [tuple(reversed(t)) for t in imp]
    U['implied'] = [tuple((l, None) for l in t) for t in imp]
    U['implied in a mode'] = [(('interface e1', t),) if t else
                              (('interface e1', None),)
                              for t in U['implied']]
    both = [(a, a + x) for a, x in zip(
        COEXIST, (' session-timeout 9', ' vrf x', ' vpn'))]
    both = [attrs([None, a], [None, b]) for a, b in both]
    both = [sum(t, ()) for t in itertools.product(*both)]
    U['coexist'] = both + [tuple(reversed(t)) for t in both if len(t) > 1]
    # modes whose names go on like those of other modes
    kid = (('shutdown', None),)
    ext = [tuple(x for x in t if x) for t in itertools.product(
        *[[None, (i, None), (i, kid)] for i in (
            'interface e1', 'interface e1 multipoint', 'vlan 1',
            'vlan 1 x y')])]
    U['extended modes'] = ext
    U['extended modes in a mode'] = [
        (('router bgp 1', tuple(x for x in t if x) or None),)
        for t in itertools.product(
            *[[None, (i, None), (i, kid)] for i in (
                'address-family ipv4', 'address-family ipv4 vrf A')])]
    for k in U:
        U[k] = list(dict.fromkeys(U[k]))
    return U


def undone(s, t):
    """Whether "no snmp-server manager" leaves its extensions alone is not
    known."""
    a, b = [{l for l, _ in x} for x in (s, t)]
    return any(l in a - b and any(x.startswith(l + ' ') for x in b)
               for l in COEXIST)


def longer(s, t):
    """Whether removing a mode, or giving one without content, leaves modes
    alone that have longer names is not known."""
    if s and s[0][0].startswith('router '):
        s, t = s[0][1] or (), t[0][1] or ()
    a, b = dict(s), dict(t)
    for x in a:
        for y in a.keys() | b.keys():
            if x not in b and y.startswith(x + ' ') and (
                    y in a or not (b[y] or a[x])):
                return True
    for x in b.keys() - a.keys():
        if not b[x] and any(y.startswith(x + ' ') and not b[y]
                            for y in b):
            return True
    return False


def decided(s, t):
    """Where some address goes and another one stays, "no ip address" is
    wrong: a known finding, see pinned()."""
    a, b = [{l for l, _ in x[0][1] or ()} for x in (s, t)]
    for p in ('ip address ', 'ipv6 address '):
        x, y = [{l for l in z if l.startswith(p)} for z in (a, b)]
        if x - y and x & y:
            return False
    return True


def ended(tree, name, indent=0):
    """The writing with a line at the end of each mode."""
    ret = ''
    bgp = name.startswith('bgp')
    for l, k in tree:
        ret += ' ' * indent + l + '\n' + ended(k or (), name, indent + 1)
        if l.startswith('address-family'):
            ret += ' ' * indent + 'exit-address-family\n'
        elif l.startswith('locator-set'):
            ret += ' ' * (indent + 1) + ('exit' if name.endswith('1') else
                                         'exit-locator-set') + '\n'
        elif l.startswith('router') and not bgp:
            ret += ' ' * (indent + 1) + ('exit' if name.endswith('1') else
                                         'exit-router-lisp') + '\n'
        if section(l) and (bgp or name.endswith('1')):
            ret += ' ' * indent + '!\n'
    return ret


def one(name, s, t, st):
    from ncdiff.runningconfig import RunningConfigDiff
    if ' exits ' in name:
        x = ended(s, name)
        y = ended(t, name[:-1] + '1')
    else:
        x, y = dump(s), dump(t)
    st.transitions += 1
    key = '{}|{}|{}'.format(name, x, y)
    case = {'running1': x, 'running2': y}
    for a, b, rev in ((s, t, False), (t, s, True)):
        if name.startswith('addresses') and not decided(a, b):
            continue
        if name.startswith('extended') and longer(a, b):
            continue
        if name == 'coexist' and undone(a, b):
            continue
        try:
            r = RunningConfigDiff(x, y)
            cli = r.cli_reverse if rev else r.cli
        except Exception as e:
            st.violation(key, '{}: {}\n{}\n{}'.format(type(e).__name__, e, x,
                                                      y), case)
            return
        st.traces += 1
        label = 'cli_reverse' if rev else 'cli'
        try:
            got = typed(a, cli)
        except Reject as e:
            st.violation(key + '|' + label,
                         '{} is rejected: {}\nfrom\n{}to\n{}cli\n{}'.format(
                             label, e, dump(a), dump(b), cli), case)
            continue
        if got != shape(device(b)):
            st.violation(key + '|' + label,
                         'after {} the device has {}\nfrom\n{}to\n{}cli\n{}'
                         .format(label, got, dump(a), dump(b), cli), case)


# Commands that a device accepts several times but that ncdiff takes for
# single-valued.
PINNED = [
    ('interface e1\n shutdown\n',
     'interface e1\n shutdown\n ipv6 address 1::1/64\n ipv6 address 2::1/64\n',
     ['ipv6 address 1::1/64', 'ipv6 address 2::1/64'], []),
    ('interface e1\n ip address 1.1.1.1 255.0.0.0\n'
     ' ip address 2.1.1.1 255.0.0.0 secondary\n',
     'interface e1\n ip address 1.1.1.1 255.0.0.0\n', [], ['no ip address']),
]


def pinned(run):
    from ncdiff.runningconfig import RunningConfigDiff
    for x, y, need, never in PINNED:
        run.transitions += 1
        cli = [l.strip() for l in RunningConfigDiff(x, y).cli.splitlines()]
        if any(n not in cli for n in need) or any(n in cli for n in never):
            run.violation('several|{}|{}'.format(x, y),
                          'from\n{}to\n{}cli {}'.format(x, y, cli),
                          {'running1': x, 'running2': y})
    # both of two commands that coexist are given
    for short, longer in (
            ('snmp-server manager', 'snmp-server manager session-timeout 9'),
            ('ip multicast-routing', 'ip multicast-routing vrf x'),
            ('ip dhcp relay information option',
             'ip dhcp relay information option vpn')):
        for t in ((short, longer), (longer, short)):
            run.transitions += 1
            cli = RunningConfigDiff('', '\n'.join(t)).cli.splitlines()
            if sorted(cli) != sorted(t):
                run.violation('coexist|{}'.format(t), 'cli {} for {}'.format(
                    cli, t), {'running2': '\n'.join(t)})


U = None


def work(item):
    name, idx = item
    st = Stats()
    trees = U[name]
    for i in idx:
        st.states += 1
        for j in range(i, len(trees)):
            one(name, trees[i], trees[j], st)
    st.sample({'universe': name, 'running1': dump(trees[idx[0]]),
               'running2': dump(trees[-1])})
    return st


def check(run):
    global U
    core.import_ncdiff()
    pinned(run)
    U = universe(run.thorough)
    items = [(n, c) for n in U
             for c in chunks(range(len(U[n])), max(1, len(U[n]) // 12))]
    items.sort(key=lambda i: -len(i[1]) * len(U[i[0]]))
    for r in pmap(work, items):
        run.merge(r)
    run.extra['universes'] = {k: len(v) for k, v in U.items()}
    run.assumptions += [
        'the device: see the command kinds at the top of c13.py; the order '
        'of lines within a mode is not compared',
        'a command that coexists with its extensions is not removed alone']
