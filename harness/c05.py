"""C05: override sets exactly one path and leaves everything else, and its input, alone."""
import marsh
from symx.base import Harness, snapshot
from harness import elements as R


def _run(g, e, fields, path, value):
    before = snapshot(e)
    try:
        want = R.put(e, fields, value)
    except R.Bad:
        want = None
    try:
        got = marsh.element.override(e, value, path)
    except marsh.errors.PathError as err:
        g.cover('refused')
        g.check(want is None, 'a settable path is refused')
        g.check(g.same(e, before), 'input changed')
        return
    g.observe('got', R.norm(got))
    g.cover('set')
    g.check(want is not None, 'an impossible path is set')
    g.check(g.same(e, before), 'input changed')
    if want is None:
        return
    g.check(g.same(marsh.element.select(got, path), value), 'set value is not at the path')
    g.check(g.same(R.norm(got), R.norm(want)), 'result')


def set_value(g, depth, width, keymax, fields, fieldmax):
    """Any element, any path of `fields` fields, terminal value."""
    e = g.tree('e', depth, width, keymax, R.leaf(g), key_alphabet='latin')
    n = g.choice('n', tuple(range(1, fields + 1)))
    fs = [g.str(f'f{i}', fieldmax, 1, alphabet='latin') for i in range(n)]
    _run(g, e, fs, marsh.path.join_fields(fs), g.int('value'))


def any_value(g, fields, keymax, fieldmax):
    """Every kind of terminal, old or new."""
    n = g.choice('n', tuple(range(1, fields + 1)))
    fs = [g.str(f'f{i}', fieldmax, 1, alphabet='latin') for i in range(n)]
    e = g.tree('e', 1, 1, keymax, R.anyleaf(g), key_alphabet='latin')
    _run(g, e, fs, marsh.path.join_fields(fs), R.anyleaf(g)('value'))


def set_structure(g, depth, width, keymax, fields, fieldmax):
    """A structure replaces whatever is at the path, it is not merged with it."""
    e = g.tree('e', depth, width, keymax, g.int, key_alphabet='latin')
    n = g.choice('n', tuple(range(0, fields + 1)))
    fs = [g.str(f'f{i}', fieldmax, 1, alphabet='latin') for i in range(n)]
    v = g.tree('v', 1, 1, keymax, g.int, kinds=('map', 'seq'), key_alphabet='latin')
    _run(g, e, fs, marsh.path.join_fields(fs), v)


def string_leaf(g):
    """A terminal that is not the missing marker cannot be traversed."""
    e = {'a': g.str('s', 4)}
    _run(g, e, ['a', 'b'], 'a.b', g.int('value'))


def raw_path(g, pathlen):
    """Any path string at all, on a two-level element with symbolic keys."""
    path = g.str('path', pathlen)
    try:
        fields = marsh.path.split(path)
    except marsh.errors.PathError:
        g.assume(False)
    k1 = g.str('k1', 2, 1)
    k2 = g.str('k2', 1, 1)
    e = {k1: {k2: 1}, 'x': (2, 3)}
    g.assume(k1 != 'x')
    _run(g, e, list(fields), path, g.int('value'))


def twice(g, fields, fieldmax):
    """The later of two overrides of the same path wins; different leaves both survive."""
    a = [g.str(f'a{i}', fieldmax, 1) for i in range(fields)]
    b = [g.str(f'b{i}', fieldmax, 1) for i in range(fields)]
    v, w = g.int('v'), g.int('w')
    pa, pb = marsh.path.join_fields(a), marsh.path.join_fields(b)
    e = marsh.element.override(marsh.element.override({}, v, pa), w, pb)
    g.check(g.same(marsh.element.select(e, pb), w), 'last write lost')
    if a != b:
        g.check(g.same(marsh.element.select(e, pa), v), 'first write lost')


HARNESSES = [
    Harness(set_value, dict(depth=2, width=1, keymax=2, fields=2, fieldmax=2),
            dict(depth=2, width=2, keymax=2, fields=3, fieldmax=2), weight=3),
    Harness(any_value, dict(fields=2, keymax=1, fieldmax=1), dict(fields=2, keymax=2, fieldmax=2)),
    Harness(set_structure, dict(depth=1, width=2, keymax=2, fields=2, fieldmax=2),
            dict(depth=2, width=2, keymax=2, fields=2, fieldmax=2), weight=2),
    Harness(string_leaf),
    Harness(raw_path, dict(pathlen=4), dict(pathlen=6)),
    Harness(twice, dict(fields=2, fieldmax=2), dict(fields=3, fieldmax=2)),
]
