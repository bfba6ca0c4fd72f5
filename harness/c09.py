"""C09: selection walks the path step by step and reports where it is."""
import marsh
from symx.base import Harness, snapshot
from harness import elements as R


def select(g, depth, width, keymax, fields, fieldmax):
    e = g.tree('e', depth, width, keymax, g.int, key_alphabet='latin')
    n = g.choice('n', tuple(range(fields + 1)))
    fs = [g.str(f'f{i}', fieldmax, 1, alphabet='latin') for i in range(n)]
    path = marsh.path.join_fields(fs)
    try:
        want = (R.get(e, fs),)
    except R.Bad:
        want = ()
    before = snapshot(e)
    try:
        got = marsh.element.select(e, path)
    except marsh.errors.PathError:
        g.cover('refused')
        g.check(not want, 'an existing path is refused')
        return
    g.cover('selected')
    g.check(len(want) == 1, 'a missing path is selected')
    if not want:
        return
    g.check(got is want[0] or g.same(got, want[0]), 'value')
    g.check(g.same(e, before), 'input changed')
    steps = list(marsh.element.iterative_select(e, path))
    g.check(len(steps) == n + 1, 'one step per field')
    for i, s in enumerate(steps):
        done = marsh.path.split(s.path)
        left = marsh.path.split(s.remaining_path)
        g.check(len(done) == i, 'traversed length')
        g.check(len(left) == n - i, 'remaining length')
        g.check(g.same(tuple(done) + tuple(left), tuple(fs)), 'traversed + remaining')
        g.check(g.same(s.element, R.get(e, fs[:i])), 'step element')


def error_path(g, fieldmax):
    """When a path leaves the element the error says which field it was at."""
    k = g.str('k', fieldmax, 1)
    f, m = g.str('f', fieldmax, 1), g.str('m', fieldmax, 1)
    e = {k: {f: 1}}
    g.assume(m != f)
    try:
        marsh.element.select(e, marsh.path.join_fields([k, m]))
    except marsh.errors.PathError as err:
        at = marsh.path.split(err.path)
        g.check(len(at) == 1, 'length')
        g.check(g.same(at[0], k), 'location')
    else:
        g.fail('missing key found')


def raw_path(g, pathlen):
    """Any path string at all; one without fields is the root."""
    path = g.str('path', pathlen)
    try:
        fields = marsh.path.split(path)
    except marsh.errors.PathError:
        g.assume(False)
    k1, k2 = g.str('k1', 2, 1), g.str('k2', 1, 1)
    e = {k1: {k2: 1}, 'x': (2, 3)}
    g.assume(k1 != 'x')
    try:
        want = (R.get(e, list(fields)),)
    except R.Bad:
        want = None
    try:
        got = marsh.element.select(e, path)
    except marsh.errors.PathError:
        g.check(want is None, 'an existing path is not selected')
        return
    g.check(want is not None, 'a missing path is selected')
    if want is not None:
        g.check(g.same(got, want[0]), 'value')


HARNESSES = [
    Harness(raw_path, dict(pathlen=4), dict(pathlen=6)),
    Harness(select, dict(depth=2, width=1, keymax=2, fields=2, fieldmax=2),
            dict(depth=2, width=2, keymax=2, fields=3, fieldmax=2), weight=3),
    Harness(select, dict(depth=1, width=3, keymax=1, fields=2, fieldmax=2),
            dict(depth=1, width=3, keymax=3, fields=2, fieldmax=3), name='select_wide'),
    Harness(select, dict(depth=3, width=1, keymax=1, fields=3, fieldmax=1),
            dict(depth=4, width=1, keymax=2, fields=4, fieldmax=2), name='select_deep'),
    Harness(error_path, dict(fieldmax=2), dict(fieldmax=4)),
]
