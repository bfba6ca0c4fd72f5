"""C10: standardize changes container types only; has_missing finds every missing value."""
import collections
import dataclasses
import types

import marsh
from symx.base import Harness, snapshot
from harness import elements as R


def standardize(g, depth, width, keymax):
    e = g.tree('e', depth, width, keymax, g.int, key_alphabet='latin')
    before = snapshot(e)
    st = g.choice('seq', (tuple, list))
    mt = g.choice('map', (dict, collections.OrderedDict, types.MappingProxyType))
    got = marsh.element.standardize(e, sequence_type=st, mapping_type=mt)

    def look(a, b):
        if R.is_map(a):
            g.check(type(b) is mt, 'mapping type')
            g.check(len(a) == len(b), 'mapping size')
            for k, other in zip(a, b):
                g.check(g.same(k, other), 'order')
                ok, v = R.find(b, k)
                g.check(ok, 'key lost')
                if ok:
                    look(a[k], v)
        elif R.is_seq(a):
            g.check(type(b) is st, 'sequence type')
            g.check(len(a) == len(b), 'sequence size')
            for x, y in zip(a, b):
                look(x, y)
        else:
            g.check(g.same(a, b), 'leaf')
    look(e, got)
    g.check(g.same(e, before), 'input changed')
    if mt is dict:
        g.check(g.same(marsh.element.standardize(got, sequence_type=st), got), 'idempotent')
    back = marsh.element.standardize(got)
    g.check(g.same(R.norm(back), R.norm(marsh.element.standardize(e))), 'back')


def has_missing(g, depth, width):
    def leaf(name):
        kind = g.choice(name + '.t', ('str', 'int', 'dc'))
        if kind == 'str':
            return g.str(name, 4)
        return g.int(name) if kind == 'int' else dataclasses.MISSING
    e = g.tree('e', depth, width, 4, leaf, key_alphabet='latin')
    got = marsh.element.has_missing(e)
    want = R.any_missing(e)
    g.check(got is True or got is False, 'bool')
    g.check(got == want, 'verdict')


HARNESSES = [
    Harness(standardize, dict(depth=2, width=2, keymax=2), dict(depth=3, width=2, keymax=1)),
    Harness(has_missing, dict(depth=2, width=2), dict(depth=3, width=2)),
]
