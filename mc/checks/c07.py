"""C07  Delta discipline: empty exactly for equal configs, only the preferred
operations, nothing mentioned that does not change."""
import confcommon as cc
from checks.c01 import OPTS, ostr, cc_str
from checks.c02 import QUICK
from core import Stats, pmap
from data import to_xml, resolve, OP, INSERT, VALUE, KEY, canon


def allowed(o):
    ret = {None, o.get('preferred_delete', 'delete')}
    if o.get('diff_type') == 'replace':
        ret.add('replace')
    else:
        ret |= {o['preferred_create'], o['preferred_replace']} - {'merge'}
    return ret


def lookup(n, parent, e):
    """Value of the instance named by e in a data dict, or None."""
    if parent is None or n.tag not in parent:
        return None
    v = parent[n.tag]
    if n.kind == 'leaf-list':
        x = resolve(n, e)
        return x if x in v else None
    if n.kind == 'list':
        k = tuple(resolve(kn, e.find(kn.tag)) for kn in n.key_nodes)
        for x in v:
            if tuple(x[kn.tag] for kn in n.key_nodes) == k:
                return x
        return None
    return v


def same(n, a, b):
    if a is None or b is None:
        return False
    if n.kind in ('leaf', 'leaf-list'):
        return a == b
    return canon(cc.ENV.schema, a, n) == canon(cc.ENV.schema, b, n)


def discipline(nc, d1, d2, o):
    """None, or why the payload breaks the rules."""
    schema = cc.ENV.schema
    ok_ops = allowed(o)
    minimum = o.get('diff_type', 'minimum') == 'minimum'

    def walk(e, n, s1, s2, depth, covered):
        keys = [k.tag for k in n.key_nodes] if n.kind == 'list' else []
        kids = schema.kids(n)
        for c in e:
            extra = set(c.attrib) - {OP, INSERT, VALUE, KEY}
            if extra:
                return 'attributes {} on {}'.format(extra, c.tag)
            op = c.get(OP)
            if c.tag in keys:
                if c.attrib:
                    return 'attributes on key {}'.format(c.tag)
                continue
            if c.tag not in kids:
                return 'unknown node {}'.format(c.tag)
            cn = kids[c.tag]
            if op not in ok_ops:
                return 'operation {} on {}'.format(op, c.tag)
            user = cn.kind in ('list', 'leaf-list') and cn.user
            if not user and (c.get(INSERT) or c.get(VALUE) or c.get(KEY)):
                return 'insert attributes on {}'.format(c.tag)
            if op == 'replace' and not minimum and \
                    depth > o['replace_depth']:
                return 'replace on {} deeper than replace_depth'.format(c.tag)
            v1, v2 = lookup(cn, s1, c), lookup(cn, s2, c)
            if op in ('delete', 'remove'):
                if covered:
                    return 'delete inside replace'
                if v1 is None:
                    return 'deletes {} which src lacks'.format(c.tag)
                if v2 is not None:
                    return 'deletes {} which dst has'.format(c.tag)
                continue
            deletes = c.xpath('.//@nc:operation', namespaces={
                'nc': OP[1:].split('}')[0]})
            if v2 is None and not ({'delete', 'remove'} & set(deletes)):
                return 'mentions {} which dst lacks'.format(c.tag)
            if not covered and same(cn, v1, v2) and not user:
                return 'mentions {} which does not change'.format(c.tag)
            if op == 'create' and v1 is not None:
                return 'creates {} which src has'.format(c.tag)
            r = walk(c, cn, v1 if isinstance(v1, dict) else None,
                     v2 if isinstance(v2, dict) else None, depth + 1,
                     covered or op in ('replace', 'create'))
            if r:
                return r
        return None

    return walk(nc, schema.top, d1, d2, 0, False)


def work(item):
    from ncdiff import ConfigDelta
    name, idx = item
    st = Stats()
    cfg = cc.build(name)
    other = cc.build(name)
    for i in idx:
        st.states += 1
        d1, k1, c1 = cfg[i]
        for d2, k2, c2 in other:
            for o in (OPTS if cc.THOROUGH else QUICK):
                key = '{}|{}|{}|{}'.format(name, to_xml(cc.ENV.schema, d1),
                                           to_xml(cc.ENV.schema, d2), ostr(o))
                case = {'slice': name, 'src': c1.xml, 'dst': c2.xml,
                        'options': o}
                st.transitions += 1
                try:
                    delta = ConfigDelta(config_src=c1, config_dst=c2, **o)
                    nc = delta.nc
                    b = bool(delta)
                except Exception as e:
                    st.violation(key, 'no delta: {}'.format(cc.short(e)), case)
                    continue
                st.traces += 1
                why = None
                if b != (k1 != k2):
                    why = 'bool(delta) is {}'.format(b)
                elif (len(nc) > 0) != (k1 != k2):
                    why = 'delta {}empty'.format('not ' if len(nc) else '')
                else:
                    why = discipline(nc, d1, d2, o)
                if why:
                    st.violation(key, '{} ({})\nsrc {}\ndst {}\ndelta {}'
                                 .format(why, ostr(o), c1.xml, c2.xml,
                                         cc_str(nc)), case)
    st.sample({'slice': name, 'src': cfg[idx[0]][2].xml,
               'dst': cfg[-1][2].xml})
    return st


def check(run):
    cc.setup(run.thorough)
    try:
        for r in pmap(work, cc.work_items()):
            run.merge(r)
        run.extra['slices'] = {k: len(v) for k, v in cc.SL.items()}
        run.assumptions += [
            'entries of a user-ordered list or leaf-list with a change among '
            'them may be mentioned without changing']
    finally:
        cc.teardown()
