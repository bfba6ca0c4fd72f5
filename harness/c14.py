"""C14: an override argument names one operation, one path and one value."""
import marsh
from symx.base import Harness, snapshot
from harness import elements as R
from harness.render import bare, quoted, render

P = marsh.parse
ST = dict(seq='[]', space='', q='"')


def operation(g, pathlen):
    """Operator and path are recovered for any path text and any operator."""
    path = g.str('path', pathlen)
    op = g.choice('op', ('=', '+=', '@', '+@', '~'))
    v = g.int('v', -99, 99)
    text = bare(path)
    if op == '~':
        g.assume(len(path) > 0)
        o = P.override('~' + text)
        g.check(type(o) is P.DeleteValue, 'kind')
    elif '@' in op:
        o = P.override(text + op + 'name')
        g.check(type(o) is P.SetConfig, 'kind')
        g.check(o.combine == (op == '+@'), 'combine')
        g.check(tuple(o.names) == ('name',), 'names')
    else:
        o = P.override(text + op + str(v))
        g.check(type(o) is P.SetValue, 'kind')
        g.check(o.combine == (op == '+='), 'combine')
        g.check(g.same(o.value, v), 'value')
    g.check(g.same(o.path, path), 'path')


def plain_path(g, n):
    """Ordinary dotted paths need no escaping."""
    path = g.str('path', n, 1, alphabet='abz019._-[]{}():,/* ')
    g.assume(path[0] != ' ')
    o = P.override(path + '=x')
    g.check(type(o) is P.SetValue, 'kind')
    g.check(g.same(o.path, path), 'path')
    g.check(o.value == 'x', 'value')


def names(g, n, count):
    """Config names are split at unescaped commas only."""
    k = g.choice('k', tuple(range(1, count + 1)))
    ns = [g.str(f'n{i}', n, 1) for i in range(k)]
    form = g.choice('form', ('bare', 'list', 'tuple'))
    if form == 'bare':
        text = ','.join([bare(x) for x in ns])
    else:
        b = '[]' if form == 'list' else '()'
        text = b[0] + ','.join([quoted(x) for x in ns]) + b[1]
    o = P.override('p@' + text)
    g.check(type(o) is P.SetConfig, 'kind')
    g.check(len(o.names) == k, 'count')
    g.check(g.same(tuple(o.names), tuple(ns)), 'names')


def plain_names(g, n, count):
    """Ordinary names need no escaping, and keep the spaces within them."""
    k = g.choice('k', tuple(range(1, count + 1)))
    ns = [g.str(f'n{i}', n, 1, alphabet='abz019._-(]{}:/*=+@~ ') for i in range(k)]
    for name in ns:
        g.assume(name[0] != ' ')
    g.assume(ns[0][0] != '(')
    o = P.override('p@' + ','.join(ns))
    g.check(type(o) is P.SetConfig, 'kind')
    g.check(g.same(tuple(o.names), tuple(ns)), 'names')


def applied(g, fields, depth, fieldmax):
    """Applying the parsed override is the element operation it denotes."""
    n = g.choice('n', tuple(range(1, fields + 1)))
    fs = [g.str(f'f{i}', fieldmax, 1, alphabet='ascii') for i in range(n)]
    op = g.choice('op', ('=', '+=', '~'))
    e = g.tree('e', depth, 1, 2, g.int, kinds=('map', 'seq'), key_alphabet='ascii')
    path = bare(marsh.path.join_fields(fs))
    if op == '~':
        text, value = '~' + path, None
    else:
        value = g.tree('v', 1, 1, 1, lambda nm: g.int(nm, -9, 9), key_alphabet='ascii')
        text = path + op + render(value, ST)
    before = snapshot(e)
    try:
        want = R.drop(e, fs) if op == '~' else R.put(e, fs, value, op == '+=')
    except R.Bad:
        want = None
    try:
        got = P.override(text).apply(e)
    except marsh.errors.PathError:
        g.check(want is None, 'refused')
        return
    g.check(want is not None, 'accepted')
    if want is None:
        return
    g.check(g.same(R.norm(got), R.norm(want)), 'result')
    g.check(g.same(e, before), 'input changed')


HARNESSES = [
    Harness(operation, dict(pathlen=3), dict(pathlen=6)),
    Harness(plain_path, dict(n=4), dict(n=6)),
    Harness(names, dict(n=2, count=2), dict(n=3, count=3)),
    Harness(plain_names, dict(n=2, count=2), dict(n=4, count=2)),
    Harness(applied, dict(fields=1, depth=1, fieldmax=2), dict(fields=2, depth=2, fieldmax=2),
            weight=3),
]
