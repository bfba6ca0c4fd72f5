"""C07: remove deletes exactly the addressed value."""
import marsh
from symx.base import Harness, snapshot
from harness import elements as R


def remove(g, depth, width, keymax, fields, fieldmax):
    e = g.tree('e', depth, width, keymax, g.int, kinds=('map', 'seq'), key_alphabet='latin')
    n = g.choice('n', tuple(range(1, fields + 1)))
    fs = [g.str(f'f{i}', fieldmax, 1, alphabet='latin') for i in range(n)]
    before = snapshot(e)
    try:
        want = R.drop(e, fs)
    except R.Bad:
        want = None
    path = marsh.path.join_fields(fs)
    try:
        got = marsh.element.remove(e, path)
    except marsh.errors.PathError:
        g.cover('refused')
        g.check(want is None, 'an existing path is not removed')
        g.check(g.same(e, before), 'input changed')
        return
    g.cover('removed')
    g.observe('got', R.norm(got))
    g.check(want is not None, 'a missing path is removed')
    if want is None:
        return
    g.check(g.same(R.norm(got), R.norm(want)), 'result')
    g.check(g.same(e, before), 'input changed')


def undo(g, depth, width, keymax, fields, fieldmax):
    """Setting a fresh key and removing it again restores a mapping."""
    e = g.tree('e', depth, width, keymax, g.int, kinds=('map',), key_alphabet='latin')
    f = g.str('f', fieldmax, 1, alphabet='latin')
    for k in e:
        g.assume(k != f)
    n = g.choice('n', tuple(range(fields)))
    fs = [f] + [g.str(f'f{i}', fieldmax, 1, alphabet='latin') for i in range(n)]
    e2 = marsh.element.override(e, g.int('v'), marsh.path.join_fields(fs))
    e3 = marsh.element.remove(e2, marsh.path.join_fields(fs[:1]))
    g.check(g.same(R.norm(e3), R.norm(e)), 'not restored')


def raw_path(g, pathlen):
    """Any path string at all; one without fields names nothing that can be removed."""
    path = g.str('path', pathlen, 1)
    try:
        fields = marsh.path.split(path)
    except marsh.errors.PathError:
        g.assume(False)
    k1, k2 = g.str('k1', 2, 1), g.str('k2', 1, 1)
    e = {k1: {k2: 1}, 'x': (2, 3)}
    g.assume(k1 != 'x')
    before = snapshot(e)
    try:
        want = (R.drop(e, list(fields)),) if fields else None
    except R.Bad:
        want = None
    try:
        got = marsh.element.remove(e, path)
    except marsh.errors.PathError:
        g.check(want is None, 'an existing path is not removed')
        g.check(g.same(e, before), 'input changed')
        return
    g.check(want is not None, 'a missing path is removed')
    if want is not None:
        g.check(g.same(R.norm(got), R.norm(want[0])), 'result')
    g.check(g.same(e, before), 'input changed')


HARNESSES = [
    Harness(raw_path, dict(pathlen=4), dict(pathlen=6)),
    Harness(remove, dict(depth=2, width=1, keymax=2, fields=2, fieldmax=2),
            dict(depth=2, width=2, keymax=2, fields=3, fieldmax=2), weight=3),
    Harness(remove, dict(depth=1, width=3, keymax=2, fields=2, fieldmax=2),
            dict(depth=1, width=3, keymax=3, fields=2, fieldmax=3), name='remove_wide'),
    Harness(remove, dict(depth=3, width=1, keymax=1, fields=3, fieldmax=1),
            dict(depth=4, width=1, keymax=2, fields=4, fieldmax=2), name='remove_deep'),
    Harness(undo, dict(depth=2, width=1, keymax=2, fields=2, fieldmax=2),
            dict(depth=2, width=2, keymax=2, fields=2, fieldmax=2)),
]
