"""C03: head/tail take exactly the first/last field off a path."""
import marsh
from symx.base import Harness
from harness.c02 import valid, _compare


def head(g, pathlen):
    path = g.str('path', pathlen)
    fields = valid(g, path)
    h, rest = marsh.path.head(path)
    g.observe('h', h)
    g.observe('rest', rest)
    if fields:
        g.check(g.same(h, fields[0]), 'head')
        _compare(g, marsh.path.split(rest), fields[1:])
    else:
        g.check(g.same(h, ''), 'empty head')
        g.check(g.same(rest, ''), 'empty rest')


def tail(g, pathlen):
    path = g.str('path', pathlen)
    fields = valid(g, path)
    t, rest = marsh.path.tail(path)
    g.observe('t', t)
    g.observe('rest', rest)
    if fields:
        g.check(g.same(t, fields[-1]), 'tail')
        _compare(g, marsh.path.split(rest), fields[:-1])
    else:
        g.check(g.same(t, ''), 'empty tail')
        g.check(g.same(rest, ''), 'empty rest')


def peel(g, fields, maxlen):
    """Peeling heads off a joined path enumerates the fields; prepending them again restores it."""
    n = g.choice('n', tuple(range(1, fields + 1)))
    fs = [g.str(f'f{i}', maxlen, 1) for i in range(n)]
    path = marsh.path.join_fields(fs)
    for f in fs:
        h, rest = marsh.path.head(path)
        g.check(g.same(h, f), 'head')
        _compare(g, marsh.path.split(marsh.path.prepend(rest, h)), marsh.path.split(path))
        path = rest
    g.check(g.same(path, ''), 'rest')


def separated(g, pathlen, delimiters):
    """The same with any other delimiter."""
    d = g.choice('delimiter', delimiters)
    path = g.str('path', pathlen, alphabet='ascii')
    try:
        fields = marsh.path.split(path, delimiter=d)
    except marsh.errors.PathError:
        g.assume(False)
    h, rest = marsh.path.head(path, delimiter=d)
    t, front = marsh.path.tail(path, delimiter=d)
    g.check(g.same(h, fields[0] if fields else ''), 'head')
    g.check(g.same(t, fields[-1] if fields else ''), 'tail')
    _compare(g, marsh.path.split(rest, delimiter=d), fields[1:])
    _compare(g, marsh.path.split(front, delimiter=d), fields[:-1])


HARNESSES = [
    Harness(head, dict(pathlen=4), dict(pathlen=7)),
    Harness(tail, dict(pathlen=4), dict(pathlen=7)),
    Harness(separated, dict(pathlen=4, delimiters=('/', ':')), dict(pathlen=5, delimiters=('/', ':', ' ', 'a'))),
    Harness(peel, dict(fields=2, maxlen=2), dict(fields=3, maxlen=3)),
]
