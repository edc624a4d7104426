"""C15  ModelDiff reports every schema node that differs between two versions
of a model, as what it is: added, deleted or modified -- and nothing else."""
import itertools
import os
import re
import shutil

import core
from core import Stats, pmap, chunks

# ---- schemas: (keyword, name, properties, children) -------------------------
def n(kw, name, *kids, **props):
    return (kw, name, tuple(sorted(props.items())), kids)


def leaf(name, type='string', **p):
    return n('leaf', name, type=type, **p)


def slots(thorough):
    """Independent places of the module, each with its alternatives."""
    S = {}
    S['leaf'] = [None, leaf('l'), leaf('l', 'int32'), leaf('l', default='d'),
                 leaf('l', mandatory='true'), leaf('l', config='false'),
                 leaf('l', status='deprecated'),
                 leaf('l', 'enumeration { enum a; enum b; }'),
                 leaf('l', 'enumeration { enum a; enum b; enum c; }'),
                 leaf('l', type='string', ff='f1')]
    S['leaf-list'] = [None, n('leaf-list', 'll', type='string'),
                      n('leaf-list', 'll', type='int8'),
                      n('leaf-list', 'll', type='string', order='user')]
    S['container'] = [None, n('container', 'c'),
                      n('container', 'c', presence='p'),
                      n('container', 'c', leaf('x')),
                      n('container', 'c', leaf('x', 'int8'), leaf('y')),
                      n('container', 'c', leaf('x'), presence='p'),
                      n('container', 'c', leaf('x'), config='false'),
                      n('container', 'c', n('container', 'd'))]
    k, j = leaf('k'), leaf('j')
    S['list'] = [None, n('list', 'li', k, j, key='k'),
                 n('list', 'li', k, j, key='k j'),
                 n('list', 'li', k, j, key='k', order='user'),
                 n('list', 'li', k, key='k'),
                 n('list', 'li', k, j, n('container', 'e'), key='k')]
    S['choice'] = [None,
                   n('choice', 'ch', n('case', 'a', leaf('ca'))),
                   n('choice', 'ch', n('case', 'a', leaf('ca')),
                     n('case', 'b', leaf('cb'))),
                   n('choice', 'ch', n('case', 'a', leaf('ca', 'int8')),
                     n('case', 'b')),
                   n('choice', 'ch', n('case', 'a', leaf('ca')),
                     mandatory='true')]
    S['rpc'] = [None, n('rpc', 'r'), n('rpc', 'r', n('input', 'input',
                                                     leaf('i'))),
                n('rpc', 'r', n('input', 'input', leaf('i', 'int8')),
                  n('output', 'output', leaf('o'))),
                n('rpc', 'r', n('input', 'input', n('container', 'ic')))]
    S['notification'] = [None, n('notification', 'nt'),
                         n('notification', 'nt', leaf('m')),
                         n('notification', 'nt', leaf('m', 'int8'),
                           n('container', 'nc'))]
    S['any'] = [None, n('anyxml', 'ax'), n('anyxml', 'ax', ff='f1'),
                n('anydata', 'ax')]
    S['kind'] = [None, leaf('t'), n('container', 't'),
                 n('container', 't', leaf('u')),
                 n('leaf-list', 't', type='string'),
                 n('list', 't', leaf('u'), key='u')]
    f = [leaf('f'), leaf('f', 'int8')]
    S['deep'] = [None] + [
        n('container', 'd1', n('list', 'd2', leaf('k'),
                               *([n('container', 'd3', *x)]
                                 if x is not None else []), key='k'))
        for x in (None, (), (f[0],), (f[1],), (f[0], leaf('g')))]
    if not thorough:
        S['leaf'] = S['leaf'][:7]
    return S


STMT = {'order': 'ordered-by', 'ff': 'if-feature'}


def yang(kids, depth=1):
    out = []
    pad = ' ' * depth
    for kw, name, props, sub in kids:
        head = kw if kw in ('input', 'output') else kw + ' ' + name
        body = []
        for p, v in props:
            if p == 'type':
                body.append('{} type {}{}'.format(
                    pad, v, '' if v.endswith('}') else ';'))
            else:
                body.append('{} {} "{}";'.format(pad, STMT.get(p, p), v))
        body += yang(sub, depth + 1)
        out += [pad + head + ' {'] + body + [pad + '}'] if body else \
            [pad + head + ';']
    return out


def module(kids):
    return '\n'.join(
        ['module mv {', ' yang-version 1.1;', ' namespace "urn:mv";',
         ' prefix mv;', ' revision 2020-01-01;', ' feature f1;'] +
        yang(kids) + ['}'])


def nodes(kids, path=(), config=True, key=(), where='data'):
    """{path: signature}.  A choice also has the names of its cases in its
    signature, as 'soft' information."""
    out = {}
    for kw, name, props, sub in kids:
        p = dict(props)
        w = where
        if kw in ('input', 'output', 'notification', 'rpc'):
            w = kw
        cfg = config and p.get('config') != 'false'
        q = path + (name,)
        sig = (kw, tuple((a, b) for a, b in props if a != 'config'),
               cfg, w, name in key)
        soft = tuple(s[1] for s in sub) if kw == 'choice' else ()
        out[q] = (sig, soft)
        if kw == 'rpc':
            # a statement that is not there still stands for an empty one
            have = [s[0] for s in sub]
            sub = tuple(s for s in sub) + tuple(
                (m, m, (), ()) for m in ('input', 'output') if m not in have)
        out.update(nodes(sub, q, cfg, p.get('key', '').split(), w))
    return out


def expected(a, b):
    """marks {path: set of accepted marks}"""
    na, nb = nodes(a), nodes(b)
    marks = {}
    for p in set(na) | set(nb):
        if p not in na:
            marks[p] = {'added'}
        elif p not in nb:
            marks[p] = {'deleted'}
        elif na[p][0] != nb[p][0]:
            marks[p] = {'modified'}
        elif na[p][1] != nb[p][1]:
            marks[p] = {'modified', ''}
        else:
            marks[p] = {''}
    return marks


LINE = re.compile(r'^ ([ |]*)\+--(.*)$')
NAME = re.compile(r'^(rw|ro|-w|-x|-n)? ?(:\(|\()?([\w:-]+)\)?[?*]?'
                  r'( \[[^]]*\])?\s*(added|deleted|modified)?$')


class Unreadable(Exception):
    pass


def parse(txt):
    """A printed diff as {path: mark}."""
    rows = txt.split('\n')
    if rows[0] != 'module: mv':
        raise Unreadable(rows[0])
    out, stack = {}, []
    for row in rows[1:]:
        if row in ('', '  rpcs:', '  notifications:'):
            continue
        m = LINE.match(row)
        d = m and NAME.match(m.group(2))
        if not d:
            raise Unreadable(row)
        depth = len(m.group(1)) // 3
        stack = stack[:depth - 1] + [d.group(3)]
        if len(stack) != depth or tuple(stack) in out:
            raise Unreadable(row)
        out[tuple(stack)] = d.group(5) or ''
    return out


def shown(marks, which):
    """Paths with one of these marks and their ancestors."""
    out = set()
    for p, m in marks.items():
        if m in which:
            for i in range(1, len(p) + 1):
                out.add(p[:i])
    return out


MODELS = {}


def one(st, ia, ib):
    from ncdiff import ModelDiff
    a, b = V[ia], V[ib]
    key = '{}|{}'.format(module(a), module(b))
    case = {'model1': module(a), 'model2': module(b)}
    st.transitions += 1

    def bad(what, msg):
        st.violation(what + '|' + key, '{}: {}\nmodel1\n{}\nmodel2\n{}'.format(
            what, msg, '\n'.join(yang(a)), '\n'.join(yang(b))), case)
    try:
        d = ModelDiff(MODELS[ia], MODELS[ib])
        truth, txt = bool(d), str(d)
        views = {v: getattr(d, v) for v in ('added', 'deleted', 'modified')}
        again = {v: getattr(d, v) for v in ('modified', 'deleted', 'added')}
        txt2 = str(d)
    except Exception as e:
        return bad('exception', '{}: {}'.format(type(e).__name__, e))
    st.traces += 1
    marks = expected(a, b)
    differ = any('' not in m for m in marks.values())
    soft = any(len(m) > 1 for m in marks.values())
    if truth != differ and not (soft and not differ):
        bad('bool', 'truth value {}'.format(truth))
    if txt != txt2 or views != again:
        bad('unstable', 'the answers depend on the order of the questions')
    try:
        got = parse(txt)
        gv = {v: parse(t) if t is not None else {} for v, t in views.items()}
    except Unreadable as e:
        return bad('unreadable', str(e))
    real = {}
    for p, ms in marks.items():
        g = got.get(p, '')
        if g not in ms:
            bad('mark', '{} is marked {!r} instead of {}'.format(
                '/'.join(p), g, sorted(ms)))
        real[p] = g
    must = shown(real, ('added', 'deleted', 'modified'))
    if set(got) != must:
        bad('lines', 'lines {} instead of {}'.format(sorted(got),
                                                     sorted(must)))
    for v in gv:
        want = shown(real, (v,))
        if set(gv[v]) != want:
            bad(v, '{} shows {} instead of {}'.format(v, sorted(gv[v]),
                                                      sorted(want)))
        for p, m in gv[v].items():
            if m != (v if real.get(p) == v else ''):
                bad(v, '{} shows {} as {!r}'.format(v, '/'.join(p), m))
        if (views[v] is None) != (not want):
            bad(v, '{} is {!r}'.format(v, views[v]))
    # a look at a single node
    for p in marks:
        x = '/mv/' + '/'.join('mv:' + i for i in p)
        try:
            t = d.compare(x)
        except Exception as e:
            return bad('compare', '{}: {}'.format(type(e).__name__, e))
        one_, two = t.split(' MODEL 1 ')[1].split(' MODEL 2 ')
        if ('None' == one_.split('\n')[1]) != (marks[p] == {'added'}) or \
           ('None' == two.split('\n')[1]) != (marks[p] == {'deleted'}) or \
           (one_.split('\n')[1:-1] == two.split('\n')[1:-2]) != \
           (real[p] == '') and '' not in marks[p]:
            bad('compare', 'compare({!r}) says\n{}'.format(x, t))


def variants(thorough):
    S = slots(thorough)
    base = [S['leaf'][1]]
    groups = []
    names = list(S)
    for s in names:
        groups.append([s])
    groups += [list(g) for g in itertools.combinations(names, 2)]
    out, idx = [], {}
    todo = set()
    for g in groups:
        alts = [S[s] if thorough or len(g) == 1 or len(S[s]) < 5 else
                S[s][:2] + S[s][3:5] for s in g]
        ids = []
        for c in itertools.product(*alts):
            v = tuple(x for x in c if x)
            if v not in idx:
                idx[v] = len(out)
                out.append(v)
            ids.append(idx[v])
        todo.update(itertools.product(ids, ids))
    return out, sorted(todo)


V = None
PAIRS = None


DIR = None


def model(i):
    """The compiled version; each one has a folder of its own."""
    from ncdiff import ModelCompiler
    f = os.path.join(DIR, str(i))
    if not os.path.isdir(f):
        os.mkdir(f)
        with open(os.path.join(f, 'mv.yang'), 'w') as g:
            g.write(module(V[i]))
    return ModelCompiler(f).compile('mv')


def compile_all(idx):
    for i in idx:
        model(i)


def work(idx):
    st = Stats()
    for p in idx:
        a, b = PAIRS[p]
        for i in (a, b):
            if i not in MODELS:
                MODELS[i] = model(i)
        one(st, a, b)
    return st


def check(run):
    global V, PAIRS, DIR
    core.import_ncdiff()
    V, PAIRS = variants(run.thorough)
    DIR = core.scratch('mc-c15-')
    try:
        for r in pmap(compile_all, chunks(range(len(V)), 20)):
            pass
        run.states += len(V)
        size = -(-len(PAIRS) // 32)
        for r in pmap(work, [range(i, min(i + size, len(PAIRS)))
                             for i in range(0, len(PAIRS), size)]):
            run.merge(r)
    finally:
        shutil.rmtree(DIR, ignore_errors=True)
    run.sample({'model1': module(V[5]), 'model2': module(V[-1])})
    run.extra['versions'] = len(V)
    run.assumptions += [
        'a choice whose set of cases changes may or may not be marked itself',
        'the order of statements in a module is not compared']
