"""Running-configs as trees, their text, and an oracle for their diff.

A tree is a tuple of (line, children) with children None (a plain line) or a
non-empty tree.
"""
import itertools


def text(tree, indent=1, depth=0):
    out = []
    for line, kids in tree:
        out.append(' ' * (indent * depth) + line)
        if kids:
            out += text(kids, indent, depth + 1)
    return out


def dump(tree, indent=1):
    return '\n'.join(text(tree, indent)) + '\n'


def perms(values, maxlen=None):
    maxlen = len(values) if maxlen is None else maxlen
    out = []
    for k in range(maxlen + 1):
        out += list(itertools.permutations(values, k))
    return out


def seqs_of(values, maxlen):
    return [tuple((v, None) for v in p) for p in perms(values, maxlen)]


def bag(tree):
    """Order-free form."""
    if not tree:
        return ()
    return tuple(sorted(((l, bag(k) if k else None) for l, k in tree),
                        key=repr))


def strict(tree, free, depth=0):
    """The order-sensitive lines in order, with everything else as a bag."""
    if not tree:
        return ()
    seq = tuple((l, strict(k, free, depth + 1)) for l, k in tree
                if not free(l, depth))
    rest = tuple(sorted(((l, strict(k, free, depth + 1)) for l, k in tree
                         if free(l, depth)), key=repr))
    return (seq, rest)


def blocks(tree, free, depth=0):
    """As strict(), but orderless lines stay between the order-sensitive
    lines they stand between."""
    if not tree:
        return ()
    out, cur = [], []
    for l, k in tree:
        x = (l, blocks(k, free, depth + 1))
        if free(l, depth):
            cur.append(x)
        else:
            out += [tuple(sorted(cur, key=repr)), x]
            cur = []
    return tuple(out + [tuple(sorted(cur, key=repr))])


class PatchError(Exception):
    pass


def apply(tree, diff):
    """Apply a diff list as a patch; the result as a bag.  Every '-' and ''
    line must be there with the very content it names."""
    cur = list(tree)
    for line, kids, mark in diff or []:
        if mark == '-':
            want = (line, bag(plain(kids)) if kids else None)
            for i, (l, k) in enumerate(cur):
                if (l, bag(k) if k else None) == want:
                    del cur[i]
                    break
            else:
                raise PatchError('deleted line {!r} with this content is not '
                                 'there'.format(line))
    for line, kids, mark in diff or []:
        if mark == '' and kids and any(changed(x) for x in kids):
            for i, (l, k) in enumerate(cur):
                if l == line:
                    try:
                        new = apply(k or (), kids)
                    except PatchError:
                        continue
                    cur[i] = (l, new or None)
                    break
            else:
                raise PatchError('context line {!r} is not there'
                                 .format(line))
        elif mark == '':
            if line not in [l for l, k in cur]:
                raise PatchError('context line {!r} is not there'
                                 .format(line))
        elif mark not in ('+', '-'):
            raise PatchError('unknown mark {!r}'.format(mark))
    for line, kids, mark in diff or []:
        if mark == '+':
            cur.append((line, plain(kids) if kids else None))
    return tuple(cur)


def changed(item):
    line, kids, mark = item
    return mark in ('+', '-') or bool(kids) and any(changed(x) for x in kids)


def plain(kids):
    return tuple((l, plain(k) if k else None) for l, k, m in kids or ())


def unmarked(tree, diff, mark):
    """Lines of tree that the diff does not mark, in order (top level)."""
    drop = [l for l, k, m in diff or [] if m == mark]
    out = []
    for l, k in tree:
        if l in drop:
            drop.remove(l)
        else:
            out.append(l)
    return out


def parse_str(s):
    """The printed diff as (mark, depth, line) triples."""
    out = []
    for row in s.splitlines():
        mark = row[0]
        rest = row[1:]
        body = rest.lstrip(' ')
        out.append((mark, len(rest) - len(body), body))
    return out


def flatten(diff, mark=None, depth=0):
    out = []
    for l, k, m in diff or []:
        mm = m if mark is None else mark
        out.append((mm or ' ', depth, l))
        if k:
            out += flatten(k, None if mm == '' else mm, depth + 1)
    return out


def parse(txt):
    """A CLI or config text with indentation as a nested list."""
    root = []
    stack = [(-1, root)]
    for row in txt.splitlines():
        if not row.strip() or row.strip() == '!':
            continue
        ind = len(row) - len(row.lstrip(' '))
        while stack[-1][0] >= ind:
            stack.pop()
        node = (row.strip(), [])
        stack[-1][1].append(node)
        stack.append((ind, node[1]))
    return root
