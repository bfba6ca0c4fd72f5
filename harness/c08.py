"""C08: merge keeps, for every path, the last value given for it."""
import marsh
from symx.base import Harness, snapshot
from harness import elements as R


def merge_two(g, depth, width, keymax):
    concat = g.choice('concatenate', (False, True))
    a = g.tree('a', depth, width, keymax, R.leaf(g), key_alphabet='latin')
    b = g.tree('b', depth, width, keymax, R.leaf(g), key_alphabet='latin')
    sa, sb = snapshot(a), snapshot(b)
    got = marsh.element.merge(a, b, concatenate=concat)
    want = R.merged(a, b, concat)
    g.observe('got', R.norm(got))
    g.check(g.same(R.norm(got), R.norm(want)), 'result')
    g.check(g.same(a, sa), 'first input changed')
    g.check(g.same(b, sb), 'second input changed')


def any_value(g, keymax):
    """Every kind of terminal on either side, at the root or under a key."""
    concat = g.choice('concatenate', (False, True))
    a = g.tree('a', 1, 1, keymax, R.anyleaf(g), key_alphabet='latin')
    b = g.tree('b', 1, 1, keymax, R.anyleaf(g), key_alphabet='latin')
    if g.choice('nest', (False, True)):
        a, b = {'k': a}, {'k': b}
    got = marsh.element.merge(a, b, concatenate=concat)
    g.check(g.same(R.norm(got), R.norm(R.merged(a, b, concat))), 'result')


def merge_many(g, n, width):
    """n flat mappings fold left to right."""
    es = [g.tree(f'e{i}', 1, width, 1, g.int, kinds=('map',), key_alphabet='latin')
          for i in range(n)]
    got = marsh.element.merge(*es)
    want = es[0]
    for e in es[1:]:
        want = R.merged(want, e)
    g.check(g.same(got, want), 'fold')
    g.check(g.same(marsh.element.merge(es[0]), es[0]), 'single')


def identity(g, depth, width):
    """Merging with a missing or empty mapping changes nothing, and an element may be merged with itself."""
    a = g.tree('a', depth, width, 2, R.leaf(g), kinds=('map',), key_alphabet='latin')
    g.check(g.same(R.norm(marsh.element.merge(a, marsh.MISSING)), R.norm(a)), 'missing')
    g.check(g.same(R.norm(marsh.element.merge(a, {})), R.norm(a)), 'empty')
    g.check(g.same(R.norm(marsh.element.merge({}, a)), R.norm(a)), 'onto empty')
    g.check(g.same(R.norm(marsh.element.merge(a, a)), R.norm(a)), 'idempotent')
    twice = marsh.element.merge(a, a, concatenate=True)
    g.check(g.same(R.norm(twice), R.norm(R.merged(a, a, True))), 'twice')
    again = marsh.element.merge({'k': a}, {'k': a}, {'k': a}, concatenate=True)
    g.check(g.same(R.norm(again), {'k': R.norm(R.merged(R.merged(a, a, True), a, True))}), 'shared')


HARNESSES = [
    Harness(any_value, dict(keymax=1), dict(keymax=2)),
    Harness(merge_two, dict(depth=2, width=1, keymax=2), dict(depth=2, width=2, keymax=1),
            weight=3),
    Harness(merge_many, dict(n=3, width=1), dict(n=3, width=2)),
    Harness(identity, dict(depth=2, width=1), dict(depth=2, width=2)),
]
