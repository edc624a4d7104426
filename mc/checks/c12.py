"""C12  A running-config diff is a faithful patch: empty exactly for the same
config, every marked line is real, and applying it gives the other config."""
import itertools

import core
from core import Stats, pmap, chunks
from rconf import (dump, perms, bag, strict, blocks, apply, PatchError,
                   unmarked, parse_str, flatten)

FREE = {0: ('ntp server ', 'router '), 1: ('neighbor ',), 2: ('neighbor ',)}


def free(line, depth):
    return line.startswith(FREE.get(depth, ())) if FREE.get(depth) else False


def seqs(values, n):
    return [tuple((v, None) for v in p) for p in perms(values, n)]


def words(values, n):
    return [tuple((v, None) for v in w) for k in range(n + 1)
            for w in itertools.product(values, repeat=k)]


def universe(thorough):
    U = {}
    n = 5 if thorough else 4
    U['flat'] = seqs('abcd', 4)
    U['repeated'] = words('ab', n)
    U['repeated3'] = words('abc', 3)
    U['orderless'] = seqs(['a', 'b', 'ntp server 1', 'ntp server 2',
                           'ntp server 3'], n)
    if thorough:
        U['orderless6'] = seqs(['a', 'b', 'c', 'ntp server 1', 'ntp server 2',
                                'router 1'], 4)
    kids = [k or None for k in seqs('xyz', 3 if thorough else 2)]
    U['section'] = [
        tuple(t) for k1 in kids for rest in
        ([], [('a', None)], [('sec 2', (('x', None),))])
        for t in ([[('sec', k1)] + rest] + ([rest + [('sec', k1)]]
                                            if rest else []))]
    deep = [(('mid', k),) if k else (('mid', None),)
            for k in [k or None for k in seqs('xy', 2)]]
    deep = [None] + deep + [d + (('x', None),) for d in deep] + \
        [(('x', None),) + d for d in deep]
    U['deep'] = [()] + [(('sec', d),) for d in deep] + \
        [(('a', None), ('sec', d)) for d in deep]
    nb = [k or None for k in seqs(['neighbor 1', 'neighbor 2', 'q'], 3)]
    U['orderless section'] = [()] + [(('router 1', k),) for k in nb] + [
        t for k in (nb if thorough else nb[:8]) for o in (
            ('router 2', (('neighbor 1', None),)), ('a', None))
        for t in ((('router 1', k), o), (o, ('router 1', k)))]
    af = [k or None for k in seqs(['neighbor 1', 'neighbor 2', 'q'], 2)]
    U['orderless deep'] = [
        (('router 1', ((('af', k),) + r)),) for k in af for r in
        ((), (('neighbor 1', None),), (('q', None),))]
    return U


def one(name, s, t, st):
    from ncdiff.runningconfig import RunningConfigDiff
    x, y = dump(s), dump(t)
    key = '{}|{}|{}'.format(name, x, y)
    case = {'running1': x, 'running2': y}
    st.transitions += 1

    def bad(what, msg):
        st.violation(key + '|' + what, '{}: {}\nrunning1\n{}running2\n{}'
                     .format(what, msg, x, y), case)
    try:
        r = RunningConfigDiff(x, y)
        d, rev, txt, truth = r.diff, r.diff_reverse, str(r), bool(r)
        r2 = RunningConfigDiff(x, y)
        first = (r2.cli, str(r2), r2.cli_reverse, r2.diff_reverse, r2.diff)
    except Exception as e:
        bad('exception', '{}: {}'.format(type(e).__name__, e))
        return
    st.traces += 1
    if (r.cli, txt, r.cli_reverse, rev, d) != first or \
            (r.running1, r.running2) != (x, y):
        bad('unstable', 'the answers depend on the order of the questions')
    if not r == r2 or r == RunningConfigDiff('only\n' + x, y):
        bad('eq', 'equality of diffs')
    # empty exactly when the same config
    if truth != bool(d) or bool(txt) != truth or bool(rev) != truth:
        bad('empty', 'bool {} diff {} reverse {} str {!r}'.format(
            truth, d, rev, txt))
    if not truth and strict(s, free) != strict(t, free):
        bad('lost', 'no difference reported')
    if truth and blocks(s, free) == blocks(t, free):
        bad('spurious', 'diff {}'.format(d))
    if not truth and (r.cli or r.cli_reverse):
        bad('cli', 'cli {!r} for equal configs'.format(r.cli))
    # a patch in both directions
    uniq = name not in ('repeated', 'repeated3')
    for src, dst, dd, label in ((s, t, d, 'diff'), (t, s, rev, 'reverse')):
        try:
            if bag(apply(src, dd)) != bag(dst):
                bad('patch', '{} {} leads to {}'.format(
                    label, dd, apply(src, dd)))
        except PatchError as e:
            bad('patch', '{} {}: {}'.format(label, dd, e))
        if uniq:
            u = [l for l in unmarked(src, dd, '-') if not free(l, 0)]
            v = [l for l in unmarked(dst, dd, '+') if not free(l, 0)]
            if u != v:
                bad('order', '{} {}: unmarked lines {} became {}'.format(
                    label, dd, u, v))
            for what in views(src, dst, dd, 0):
                bad('view', '{} {}: {}'.format(label, dd, what))
    # orderless lines that stay in their block are never moved
    com = [l for l, k in s if not free(l, 0) and l in [a for a, b in t]]
    if uniq and com == [l for l, k in t if l in com]:
        gs, gt = gaps(s, com), gaps(t, com)
        if all(gs[l] == gt[l] for l in gs if l in gt):
            mm = [l for l, k, m in d or [] if m == '-' and free(l, 0)]
            pp = [l for l, k, m in d or [] if m == '+' and free(l, 0)]
            if set(mm) & set(pp):
                bad('moved', 'orderless lines {} are moved'.format(
                    sorted(set(mm) & set(pp))))
    # the printed form says the same
    want = flatten(d)
    got = parse_str(txt)
    lv = {}
    ok = len(got) == len(want)
    for (m1, dep, l1), (m2, ind, l2) in zip(want, got):
        ok = ok and m1 == m2 and l1 == l2 and lv.setdefault(dep, ind) == ind
    if not ok or sorted(lv.values()) != [lv[k] for k in sorted(lv)] or \
            len(set(lv.values())) != len(lv):
        bad('str', '{}\nfor {}'.format(txt, d))


def views(src, dst, dd, depth):
    """What is printed reads, without the + lines, like running1 with lines
    left out, and without the - lines like running2; a moved line can be seen
    to have moved."""
    if not dd:
        return
    for tree, sign in ((src, '-'), (dst, '+')):
        seen = [l for l, k, m in dd if m in ('', sign) and not free(l, depth)]
        it = iter([l for l, k in tree])
        if not all(l in it for l in seen):
            yield 'lines {} are not in the order of {}'.format(
                seen, [l for l, k in tree])
    a = [l for l, k, m in dd if m != '+']
    b = [l for l, k, m in dd if m != '-']
    com = set(a) & set(b)
    moved = {l for l, k, m in dd if m == '-'} & \
        {l for l, k, m in dd if m == '+'}
    if moved and [l for l in a if l in com] == [l for l in b if l in com]:
        yield 'lines {} look as if they had not moved'.format(sorted(moved))
    kids1, kids2 = dict(src), dict(dst)
    for l, k, m in dd:
        if m == '' and k and l in kids1 and l in kids2:
            for w in views(kids1[l] or (), kids2[l] or (), k, depth + 1):
                yield w


def gaps(tree, com):
    g, out = 0, {}
    for l, k in tree:
        if l in com:
            g += 1
        elif free(l, 0):
            out[l] = g
    return out


U = None


def work(item):
    name, idx = item
    st = Stats()
    trees = U[name]
    for i in idx:
        st.states += 1
        for t in trees:
            one(name, trees[i], t, st)
    st.sample({'universe': name, 'running1': dump(trees[idx[-1]]),
               'running2': dump(trees[-1])})
    return st


def check(run):
    global U
    core.import_ncdiff()
    U = universe(run.thorough)
    items = [(n, c) for n in U
             for c in chunks(range(len(U[n])), max(1, len(U[n]) // 12))]
    items.sort(key=lambda i: -len(i[1]) * len(U[i[0]]))
    for r in pmap(work, items):
        run.merge(r)
    run.extra['universes'] = {k: len(v) for k, v in U.items()}
    run.assumptions += [
        'a line occurs once per section, except in the universes of repeated '
        'lines (order-sensitive commands)',
        'orderless lines that cross an order-sensitive line may or may not '
        'be reported']
