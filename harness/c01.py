"""C01: joining fields into a path and splitting it gives the fields back."""
import marsh
from symx.base import Harness


def join_split(g, fields, maxlen):
    """split(join_fields(fs)) == fs for every tuple of non-empty fields."""
    n = g.choice('n', tuple(range(fields + 1)))
    fs = tuple([g.str(f'f{i}', maxlen, 1) for i in range(n)])
    path = marsh.path.join_fields(fs)
    back = marsh.path.split(path)
    g.observe('path', path)
    g.observe('back', back)
    g.check(len(back) == n, 'count')
    for a, b in zip(fs, back):
        g.check(g.same(a, b), 'field')


def join_split_delimiter(g, fields, maxlen):
    """The same with any single delimiter character that has no other meaning."""
    d = g.str('d', 1, 1)
    g.assume(g.And(d != '"', d != "'", d != '\\'))
    n = g.choice('n', tuple(range(1, fields + 1)))
    fs = tuple([g.str(f'f{i}', maxlen, 1) for i in range(n)])
    back = marsh.path.split(marsh.path.join_fields(fs, delimiter=d), delimiter=d)
    g.observe('back', back)
    g.check(len(back) == n, 'count')
    for a, b in zip(fs, back):
        g.check(g.same(a, b), 'field')


def escape_single(g, maxlen):
    """An escaped field is one field."""
    f = g.str('f', maxlen, 1)
    back = marsh.path.split(marsh.path.escape_field(f))
    g.check(len(back) == 1, 'count')
    g.check(g.same(back[0], f), 'field')


HARNESSES = [
    Harness(join_split, dict(fields=2, maxlen=3), dict(fields=3, maxlen=4)),
    Harness(join_split_delimiter, dict(fields=2, maxlen=2), dict(fields=2, maxlen=4)),
    Harness(escape_single, dict(maxlen=5), dict(maxlen=8)),
]
