"""C06: combining overrides extend what is at the path, at any depth."""
import marsh
from symx.base import Harness, snapshot
from harness import elements as R


def _run(g, e, fs, v):
    before, vbefore = snapshot(e), snapshot(v)
    try:
        want = (R.put(e, fs, v, True),)
    except R.Bad:
        want = None
    try:
        got = marsh.element.override(e, v, marsh.path.join_fields(fs), combine=True)
    except marsh.errors.PathError:
        g.check(want is None, 'a settable path is refused')
        return
    g.observe('got', R.norm(got))
    g.check(want is not None, 'an impossible path is set')
    if want is None:
        return
    g.check(g.same(R.norm(got), R.norm(want[0])), 'result')
    g.check(g.same(e, before), 'input changed')
    g.check(g.same(v, vbefore), 'value changed')


def combine(g, depth, width, fields, keymax, fieldmax):
    e = g.tree('e', depth, width, keymax, g.int, key_alphabet='latin')
    n = g.choice('n', tuple(range(fields + 1)))
    fs = [g.str(f'f{i}', fieldmax, 1, alphabet='latin') for i in range(n)]
    v = g.tree('v', 1, 1, keymax, g.int, key_alphabet='latin')
    _run(g, e, fs, v)


def any_value(g, fields, keymax, fieldmax):
    """Every kind of terminal on either side."""
    n = g.choice('n', tuple(range(fields + 1)))
    fs = [g.str(f'f{i}', fieldmax, 1, alphabet='latin') for i in range(n)]
    side = g.choice('side', ('old', 'new'))
    leaf = R.anyleaf(g)
    e = g.tree('e', 1, 1, keymax, leaf if side == 'old' else g.int, key_alphabet='latin')
    for f in reversed(fs):
        e = {f: e}
    v = g.tree('v', 1, 1, keymax, leaf if side == 'new' else g.int, key_alphabet='latin')
    _run(g, e, fs, v)


def sequences(g, n):
    """`path+=seq` concatenates in order whatever the depth of the path."""
    depth = g.choice('depth', tuple(range(n + 1)))
    fs = [g.str(f'f{i}', 2, 1) for i in range(depth)]
    old = tuple([g.int(f'o{i}') for i in range(g.choice('no', (0, 1, 2)))])
    new = tuple([g.int(f'n{i}') for i in range(g.choice('nn', (0, 1, 2)))])
    path = marsh.path.join_fields(fs)
    e = marsh.element.override({}, list(old) if g.choice('l', (True, False)) else old, path)
    out = marsh.element.override(e, list(new), path, combine=True)
    g.check(g.same(tuple(marsh.element.select(out, path)), old + new), 'concatenation')


def maps(g, n):
    """`path+=map` unions, the new value winning on shared keys."""
    depth = g.choice('depth', tuple(range(n + 1)))
    fs = [g.str(f'f{i}', 2, 1) for i in range(depth)]
    k1, k2 = g.str('k1', 2, 1), g.str('k2', 2, 1)
    v1, v2 = g.int('v1'), g.int('v2')
    path = marsh.path.join_fields(fs)
    e = marsh.element.override({}, {k1: v1}, path)
    out = marsh.element.override(e, {k2: v2}, path, combine=True)
    m = marsh.element.select(out, path)
    g.check(g.same(m[k2], v2), 'new key')
    if k1 != k2:
        g.check(len(m) == 2, 'size')
        g.check(g.same(m[k1], v1), 'old key')
    else:
        g.check(len(m) == 1, 'size')


def raw_path(g, pathlen):
    """Any path string at all; one without fields is the root."""
    path = g.str('path', pathlen)
    try:
        fields = marsh.path.split(path)
    except marsh.errors.PathError:
        g.assume(False)
    k1 = g.str('k1', 2, 1)
    e = {k1: {'y': 1}, 'x': (2, 3)}
    g.assume(k1 != 'x')
    v = {'y': 5, 'z': 6} if g.choice('map', (True, False)) else (4,)
    try:
        want = (R.put(e, list(fields), v, True),)
    except R.Bad:
        want = None
    try:
        got = marsh.element.override(e, v, path, combine=True)
    except marsh.errors.PathError:
        g.check(want is None, 'a settable path is refused')
        return
    g.check(want is not None, 'an impossible path is set')
    if want is not None:
        g.check(g.same(R.norm(got), R.norm(want[0])), 'result')


HARNESSES = [
    Harness(raw_path, dict(pathlen=4), dict(pathlen=6)),
    Harness(combine, dict(depth=2, width=1, fields=2, keymax=2, fieldmax=2),
            dict(depth=2, width=2, fields=2, keymax=2, fieldmax=2), weight=3),
    Harness(any_value, dict(fields=1, keymax=1, fieldmax=1), dict(fields=2, keymax=2, fieldmax=2)),
    Harness(sequences, dict(n=2), dict(n=3)),
    Harness(maps, dict(n=2), dict(n=3)),
]
