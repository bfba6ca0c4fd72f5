"""C02: append/prepend add exactly one field to any path."""
import marsh
from symx.base import Harness


def valid(g, path):
    try:
        return marsh.path.split(path)
    except marsh.errors.PathError:
        g.assume(False)


def _compare(g, got, want):
    g.check(len(got) == len(want), 'count')
    for a, b in zip(got, want):
        g.check(g.same(a, b), 'field')


def append(g, pathlen, fieldlen):
    path = g.str('path', pathlen)
    field = g.str('field', fieldlen, 1)
    fields = valid(g, path)
    out = marsh.path.append(path, field)
    g.observe('out', out)
    _compare(g, marsh.path.split(out), tuple(fields) + (field,))


def prepend(g, pathlen, fieldlen):
    path = g.str('path', pathlen)
    field = g.str('field', fieldlen, 1)
    fields = valid(g, path)
    out = marsh.path.prepend(path, field)
    g.observe('out', out)
    _compare(g, marsh.path.split(out), (field,) + tuple(fields))


def empty_field(g, pathlen):
    """An empty field adds nothing."""
    path = g.str('path', pathlen)
    fields = valid(g, path)
    _compare(g, marsh.path.split(marsh.path.append(path, '')), fields)
    _compare(g, marsh.path.split(marsh.path.prepend(path, '')), fields)


def error_path(g, depth, fieldlen):
    """Fields pushed through nested handlers can be read back from the error's path."""
    n = g.choice('n', tuple(range(1, depth + 1)))
    fs = [g.str(f'f{i}', fieldlen, 1) for i in range(n)]
    err = marsh.errors.MarshError('x')
    for f in reversed(fs):
        try:
            with marsh.errors.prepend(f):
                raise err
        except marsh.errors.MarshError as e:
            g.check(e is err, 'same error')
    _compare(g, marsh.path.split(err.path), tuple(fs))
    last = g.str('last', fieldlen, 1)
    err.append(last)
    _compare(g, marsh.path.split(err.path), tuple(fs) + (last,))


def separated(g, pathlen, fieldlen, delimiters):
    """The same with any other delimiter."""
    d = g.choice('delimiter', delimiters)
    path = g.str('path', pathlen, alphabet='ascii')
    field = g.str('field', fieldlen, alphabet='ascii')
    try:
        fields = tuple(marsh.path.split(path, delimiter=d))
    except marsh.errors.PathError:
        g.assume(False)
    more = (field,) if field != '' else ()
    _compare(g, marsh.path.split(marsh.path.append(path, field, delimiter=d), delimiter=d), fields + more)
    _compare(g, marsh.path.split(marsh.path.prepend(path, field, delimiter=d), delimiter=d), more + fields)


HARNESSES = [
    Harness(append, dict(pathlen=3, fieldlen=2), dict(pathlen=5, fieldlen=2)),
    Harness(prepend, dict(pathlen=3, fieldlen=2), dict(pathlen=5, fieldlen=2)),
    Harness(separated, dict(pathlen=3, fieldlen=1, delimiters=('/',)), dict(pathlen=4, fieldlen=2, delimiters=('/', ':', ' ', 'a'))),
    Harness(empty_field, dict(pathlen=4), dict(pathlen=6)),
    Harness(error_path, dict(depth=2, fieldlen=2), dict(depth=3, fieldlen=3)),
]
