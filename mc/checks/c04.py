"""C04  Comparisons decide the structural subset order of the data, whatever
the writing of the two configs."""
import confcommon as cc
import styles
from core import Stats, pmap
from data import to_xml


def le(a, b, node):
    """Oracle on data trees: everything in a is in b, in the same order."""
    kids = cc.ENV.schema.kids(node)
    for t, v in a.items():
        if t not in b:
            return False
        n, w = kids[t], b[t]
        if n.kind == 'leaf':
            if v != w:
                return False
        elif n.kind == 'container':
            if not le(v, w, n):
                return False
        elif n.kind == 'leaf-list':
            if not set(v) <= set(w):
                return False
            if n.user and [x for x in w if x in v] != list(v):
                return False
        else:
            keyed = {tuple(e[k.tag] for k in n.key_nodes): e for e in w}
            ks = [tuple(e[k.tag] for k in n.key_nodes) for e in v]
            for k, e in zip(ks, v):
                if k not in keyed or not le(e, keyed[k], n):
                    return False
            if n.user and [k for k in keyed if k in ks] != ks:
                return False
    return True


def cmp_all(a, b):
    return {'<=': a <= b, '<': a < b, '>=': a >= b, '>': a > b,
            '==': a == b, '!=': a != b}


def want_all(x, y):
    return {'<=': x, '<': x and not y, '>=': y, '>': y and not x,
            '==': x and y, '!=': not (x and y)}


def work(item):
    from ncdiff import Config
    name, idx = item
    st = Stats()
    cfg = cc.build(name)
    top = cc.ENV.schema.top
    empty = Config(cc.ENV.dev)
    for i in idx:
        st.states += 1
        d1, k1, c1 = cfg[i]
        st.transitions += 1
        if bool(c1) != bool(d1) or (c1 == empty) != (not d1):
            st.violation('{}|bool|{}'.format(name, to_xml(cc.ENV.schema, d1)),
                         'bool() or equality with the empty config wrong: {}'
                         .format(c1.xml), {'config': c1.xml})
        forms = []
        for label, thunk in styles.variants(d1):
            key = '{}|{}|{}'.format(name, to_xml(cc.ENV.schema, d1), label)
            try:
                v = Config(cc.ENV.dev, thunk())
                forms.append((label, v))
            except Exception as e:
                x = thunk()
                st.violation(key, 'config not accepted ({}): {}\n{}'.format(
                    label, cc.short(e), x if isinstance(x, str)
                    else styles.s(x)), {'config': str(x), 'style': label})
        for d2, k2, c2 in cfg:
            x, y = le(d1, d2, top), le(d2, d1, top)
            if (x and y) != (k1 == k2):
                raise RuntimeError('oracle: {} {}'.format(d1, d2))
            todo = [('same writing', c1)] + forms
            for label, f in todo:
                key = '{}|{}|{}|{}'.format(
                    name, to_xml(cc.ENV.schema, d1),
                    to_xml(cc.ENV.schema, d2), label)
                case = {'slice': name, 'a': f.xml, 'b': c2.xml,
                        'style': label}
                st.transitions += 1
                try:
                    if label == 'same writing':
                        got, want = cmp_all(f, c2), want_all(x, y)
                    else:
                        got = {'<=': f <= c2, '>=': f >= c2}
                        want = {'<=': x, '>=': y}
                except Exception as e:
                    st.violation(key, 'comparison fails: {}\na {}\nb {}'
                                 .format(cc.short(e), f.xml, c2.xml), case)
                    continue
                st.traces += 1
                if got != want:
                    st.violation(key, 'comparison wrong ({}): got {} want {}\n'
                                 'a {}\nb {}'.format(label, got, want, f.xml,
                                                     c2.xml), case)
    # symmetric writings, and comparisons with other objects
    for other in (1, None, 'x', cfg[0][2].ele):
        for f in (lambda: cfg[0][2] < other, lambda: cfg[0][2] == other,
                  lambda: cfg[0][2] >= other):
            try:
                f()
            except TypeError:
                continue
            st.violation('type|{!r}'.format(other), 'comparison of a Config '
                         'with {!r} does not raise TypeError'.format(other),
                         {})
    st.sample({'slice': name, 'a': cfg[idx[0]][2].xml, 'b': cfg[-1][2].xml})
    return st


def check(run):
    cc.setup(run.thorough)
    try:
        for r in pmap(work, cc.work_items()):
            run.merge(r)
        run.extra['slices'] = {k: len(v) for k, v in cc.SL.items()}
        run.extra['writings'] = [x[0] for x in styles.variants({})]
        run.assumptions += [
            'user-ordered entries: a <= b needs the entries of a in the same '
            'relative order in b',
            'prefixes in values are declared on the root or top container']
    finally:
        cc.teardown()
