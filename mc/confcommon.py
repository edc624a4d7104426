"""Shared helpers of the config checks."""
import itertools

import core
from core import Stats, pmap, chunks
from data import (Server, ServerError, DecodeError, canon, from_element,
                  normalise, to_xml, to_element, Style, OP, INSERT, VALUE, KEY)
from fixture import Env, slices, MAIN, AUG, TYPE, m, a

ENV = None
SRV = None
SL = None
THOROUGH = False


REFNS = ' xmlns:mm="%s" xmlns:mt="%s" xmlns:ma="%s"' % (MAIN, TYPE, AUG)


def setup(thorough=False):
    global ENV, SRV, SL, THOROUGH
    THOROUGH = thorough
    ENV = Env()
    SRV = Server(ENV.schema)
    SL = slices(thorough)
    return ENV


def teardown():
    global ENV
    if ENV is not None:
        ENV.close()


def text_of(d):
    """XML of a data tree; containers of refs declare all prefixes on top."""
    x = to_xml(ENV.schema, d)
    head = '<i xmlns="%s"' % MAIN
    return x.replace(head, head + REFNS)


def build(name, trees=None):
    """[(data, canon, Config)] of a slice."""
    from ncdiff import Config
    out = []
    for d in (SL[name] if trees is None else trees):
        out.append((d, canon(ENV.schema, d), Config(ENV.dev, text_of(d))))
    return out


def dec(ele):
    return canon(ENV.schema, from_element(ENV.schema, ele))


def short(e):
    return '{}: {}'.format(type(e).__name__, str(e)[:300])


def work_items(names=None, per=8):
    """Split every slice in chunks of source indices."""
    items = []
    for name in (names or SL):
        n = len(SL[name])
        k = max(1, min(per, n * n // 300))
        for c in chunks(range(n), k):
            items.append((name, c))
    # biggest slices first
    items.sort(key=lambda i: -len(i[1]) * len(SL[i[0]]))
    return items
