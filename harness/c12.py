"""C12: an element written in the command line syntax parses back to itself."""
import marsh
from symx.base import Harness
from harness.render import render, quoted, bare
from harness.elements import norm


def style(g):
    return dict(seq=g.choice('brackets', ('[]', '()')), space=g.choice('space', ('', ' ', '\t ')),
                q=g.choice('q', ('"', "'")))


def leaf(g, strmax):
    def make(name):
        kind = g.choice(name + '.t', ('int', 'str', 'none', 'true', 'false'))
        if kind == 'int':
            return g.int(name, -999, 999)
        if kind == 'str':
            return g.str(name, strmax)
        return {'none': None, 'true': True, 'false': False}[kind]
    return make


def round_trip(g, depth, width, keymax, strmax):
    e = g.tree('e', depth, width, keymax, leaf(g, strmax), minkey=0)
    st = style(g)
    back = marsh.parse.element(render(e, st))
    g.observe('back', norm(back))
    g.check(g.same(norm(back), norm(e)), 'value')


def strings(g, n):
    """Any string survives quoting, whatever it contains, in every position."""
    s = g.str('s', n)
    q = quoted(s, g.choice('q', ('"', "'")))
    where = g.choice('where', ('element', 'terminal', 'string', 'item', 'value', 'key'))
    if where == 'element':
        got = marsh.parse.element(q)
    elif where == 'terminal':
        got = marsh.parse.terminal(q)
    elif where == 'string':
        got = marsh.parse.string(q)
    elif where == 'item':
        got = marsh.parse.element('[1, ' + q + ' , 2]')[1]
    elif where == 'value':
        got = marsh.parse.element('{a:' + q + '}')['a']
    else:
        got = list(marsh.parse.element('{' + q + ':1}'))[0]
    g.check(g.same(got, s), 'string')


def escaped(g, n):
    """Escaping keeps every character out of the syntax."""
    s = g.str('s', n, 1)
    got = marsh.parse.string(bare(s))
    g.check(g.same(got, s), 'string')
    got = marsh.parse.sequence('[' + bare(s) + ',' + bare(s) + ']', element_parser=marsh.parse.string)
    g.check(g.same(tuple(got), (s, s)), 'items')


def ints(g, lo, hi):
    v = g.int('v', lo, hi)
    got = marsh.parse.element(str(v))
    g.check(g.same(got, v), 'int')


def repeated(g, keymax, most):
    """A key written more than once has its last value."""
    n = g.choice('n', tuple(range(2, most + 1)))
    st = style(g) if n == 2 else dict(space='', q="'")
    keys = [g.str(f'k{i}', keymax, alphabet='ascii') for i in range(n)]
    values = [g.choice(f'v{i}', ('1', '[2]', '{a: 3}', 'null') if n == 2 else ('1', 'null')) for i in range(n)]
    read = {'1': 1, '[2]': (2,), '{a: 3}': {'a': 3}, 'null': None}
    got = marsh.parse.element('{' + (',' + st['space']).join([quoted(k, st['q']) + ':' + v for k, v in zip(keys, values)]) + '}')
    want = {}
    for k, v in zip(keys, values):
        want[k] = read[v]
    g.check(g.same(norm(got), norm(want)), 'last value')


HARNESSES = [
    Harness(round_trip, dict(depth=1, width=2, keymax=1, strmax=1),
            dict(depth=2, width=2, keymax=2, strmax=2), weight=3),
    Harness(round_trip, dict(depth=2, width=1, keymax=1, strmax=2),
            dict(depth=3, width=1, keymax=2, strmax=3), name='round_trip_deep'),
    Harness(strings, dict(n=4), dict(n=7)),
    Harness(escaped, dict(n=3), dict(n=5)),
    Harness(repeated, dict(keymax=1, most=3), dict(keymax=2, most=3)),
    Harness(ints, dict(lo=-10 ** 6, hi=10 ** 6), dict(lo=-10 ** 18, hi=10 ** 18)),
]
