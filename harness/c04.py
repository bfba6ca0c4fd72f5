"""C04: which strings are paths, and what their fields are."""
import marsh
from symx.base import Harness


def grammar(path, delimiter='.'):
    """Independent reading of the documented path syntax; None for a malformed path."""
    fields, cur, i = [], [], 0
    quote = ''
    while i < len(path):
        c = path[i]
        if c == '\\':
            if i + 1 >= len(path):
                return None
            cur.append(path[i + 1])
            i += 2
            continue
        if quote:
            if c == quote:
                quote = ''
            else:
                cur.append(c)
        elif c == '"' or c == "'":
            quote = c
        elif c == delimiter:
            if cur:
                fields.append(cur)
            cur = []
        else:
            cur.append(c)
        i += 1
    if quote:
        return None
    if cur:
        fields.append(cur)
    return [''.join(f) for f in fields]


def split_grammar(g, pathlen):
    path = g.str('path', pathlen)
    want = grammar(path)
    try:
        got = marsh.path.split(path)
    except marsh.errors.PathError:
        g.cover('malformed')
        g.check(want is None, 'a well-formed path is refused')
        return
    g.observe('fields', tuple(got))
    g.check(want is not None, 'a malformed path is accepted')
    if want is None:
        return
    g.cover('well-formed')
    g.check(len(got) == len(want), 'count')
    for a, b in zip(got, want):
        g.check(g.same(a, b), 'field')
        g.check(len(a) > 0, 'no field is empty')


def iterative(g, pathlen):
    """iterative_split yields what split returns, custom delimiter."""
    d = g.choice('d', ('/', '.', ':'))
    path = g.str('path', pathlen)
    want = grammar(path, d)
    got = []
    try:
        for f in marsh.path.iterative_split(path, d):
            got.append(f)
    except marsh.errors.PathError:
        g.check(want is None, 'a well-formed path is refused')
        return
    g.check(want is not None, 'a malformed path is accepted')
    if want is None:
        return
    g.check(len(got) == len(want), 'count')
    for a, b in zip(got, want):
        g.check(g.same(a, b), 'field')


HARNESSES = [
    Harness(split_grammar, dict(pathlen=5), dict(pathlen=8)),
    Harness(iterative, dict(pathlen=4), dict(pathlen=6)),
]
