"""C49: the helpers for tests pass exactly when what they state holds."""
import dataclasses
from typing import Dict, List, Literal, Optional, Tuple

import pytest

import marsh
from marsh import testing
from symx.base import Harness
from harness import ref as F
from harness import types_pool as T

E = marsh.errors
I, S = T.INT, T.STR


@dataclasses.dataclass
class Point:
    x: int
    y: int = 2


POINT = F.Rec(Point, [('x', I, F.NODEF), ('y', I, lambda: 2)], lambda v: Point(**v))
DESCRIPTORS = {'int': I, 'str': S, 'bool': T.BOOL, 'list': F.Seq(I), 'map': F.Map(S, I), 'optional': F.Opt(I), 'point': POINT,
               'literal': F.Lit('a', 1)}


def outcome(fn, *args, **kwargs):
    """'passed', value | 'failed', error | 'raised', error"""
    try:
        return 'passed', fn(*args, **kwargs)
    except (AssertionError, pytest.fail.Exception) as err:
        return 'failed', err
    except Exception as err:
        return 'raised', err


def values(g, kind, name):
    """Values to compare with, of the type and of others."""
    i = g.choice(name, (0, 1, 7))
    return {'int': lambda: i, 'str': lambda: g.str(name + 's', 1), 'bool': lambda: g.bool(name + 'b'), 'list': lambda: [i], 'map': lambda: {'k': i},
            'optional': lambda: i if g.choice(name + 'o', (True, False)) else None, 'point': lambda: Point(i, 2), 'literal': lambda: g.choice(name + 'l', ('a', 1))}[kind]()


def elements(g, kind, n):
    bad = g.choice('bad', ('no', 'type', 'none'))
    if bad == 'type':
        return [[1]] if kind != 'list' else {'k': {}}
    if bad == 'none':
        return None
    i = g.choice('e', (0, 1, -3))
    return {'int': lambda: i, 'str': lambda: g.str('es', n), 'bool': lambda: g.bool('eb'), 'list': lambda: [i], 'map': lambda: {'k': i},
            'optional': lambda: i, 'point': lambda: {'x': i}, 'literal': lambda: g.choice('el', ('a', 1, 'b'))}[kind]()


def reads(g, n, kinds):
    """unmarshal_succeeds passes when the value read is the one stated."""
    kind = g.choice('kind', kinds)
    d = DESCRIPTORS[kind]
    e, v = elements(g, kind, n), values(g, kind, 'v')
    got = outcome(testing.unmarshal_succeeds, d.t, e, v)
    want = F.expect(d, e)
    if want[0] == 'no':
        g.check(got[0] == 'raised' and isinstance(got[1], E.UnmarshalError), 'not read')
    elif want[1] == v:
        g.check(got[0] == 'passed', 'passes')
        g.check(got[1] == v, 'value')
    else:
        g.check(got[0] == 'failed', 'fails')


CAUSES = (None, ValueError, E.UnmarshalError, E.MissingValueError, KeyError, Exception, TypeError)


def refuses(g, n, kinds):
    """unmarshal_fails passes when the element is refused, for the reason stated."""
    kind = g.choice('kind', kinds)
    d = DESCRIPTORS[kind]
    e = elements(g, kind, n)
    cause = g.choice('cause', CAUSES)
    got = outcome(testing.unmarshal_fails, d.t, e, cause)
    if F.expect(d, e)[0] != 'no':
        g.check(got[0] == 'failed', 'was read')
        return
    try:
        marsh.unmarshal(d.t, e)
        g.fail('read')
    except E.UnmarshalError as err:
        chain = []
        while err is not None:
            chain.append(err)
            err = err.__context__
    if cause is None or any([isinstance(x, cause) for x in chain]):
        g.check(got[0] == 'passed' and got[1] is None, 'passes')
    else:
        g.check(got[0] == 'failed', 'another reason')


class Opaque:
    pass


def writes(g, n):
    """marshal_succeeds passes when the value is written as the element stated, marshal_fails when it can not be."""
    kind = g.choice('kind', ('int', 'str', 'list', 'map', 'point', 'opaque', 'inside'))
    i, s = g.int('i', -9, 9), g.str('s', n)
    value, element = {'int': lambda: (i, i), 'str': lambda: (s, s), 'list': lambda: ((i, s), [i, s]), 'map': lambda: ({'k': i}, {'k': i}),
                      'point': lambda: (Point(i), {'x': i, 'y': 2}), 'opaque': lambda: (Opaque(), None), 'inside': lambda: ([1, Opaque()], None)}[kind]()
    if kind in ('opaque', 'inside'):
        g.check(outcome(testing.marshal_succeeds, value, 'x')[0] == 'raised', 'can not be written')
        cause = g.choice('cause', (None, E.MarshalError, ZeroDivisionError))
        got = outcome(testing.marshal_fails, value, cause)
        g.check(got[0] == ('failed' if cause is ZeroDivisionError else 'passed'), 'refused')
        return
    j, t = g.int('j', -9, 9), g.str('t', n)
    stated = {'int': lambda: j, 'str': lambda: t, 'list': lambda: g.choice('as', (list, tuple))([j, t]), 'map': lambda: {'k': j}, 'point': lambda: {'y': 2, 'x': j}}[kind]()
    got = outcome(testing.marshal_succeeds, value, stated)
    same = {'int': i == j, 'str': s == t, 'list': g.And(i == j, s == t), 'map': i == j, 'point': i == j}[kind]
    g.check((got[0] == 'passed') == bool(same), 'passes exactly then')
    g.check(got[0] in ('passed', 'failed'), 'no other error')
    if got[0] == 'passed':
        g.check(g.same(list(got[1]) if kind == 'list' else got[1], element), 'element')
    g.check(outcome(testing.marshal_fails, value)[0] == 'failed', 'was written')


ERRORS = (ValueError, KeyError, E.UnmarshalError, TypeError)


def causes(g, depth):
    """catch_cause passes when the base is raised with the cause somewhere in what led to it."""
    base = g.choice('base', (None, E.UnmarshalError, Exception))
    cause = g.choice('cause', (None, ValueError, LookupError, E.MarshError))
    links = [g.choice(f'e{i}', ERRORS) for i in range(g.choice('depth', tuple(range(depth + 1))))]
    explicit = g.choice('explicit', (True, False))

    def raise_chain(rest):
        if len(rest) == 1:
            raise rest[0]('inner')
        try:
            raise_chain(rest[1:])
        except Exception as err:
            if explicit:
                raise rest[0]('outer') from err
            raise rest[0]('outer')

    def body():
        with testing.catch_cause(*(() if base is None else (base,)), cause=cause):
            if links:
                raise_chain(links)
    got = outcome(body)
    wanted = base or E.MarshError
    if not links:
        g.check(got[0] == 'failed', 'nothing raised')
    elif not issubclass(links[0], wanted):
        g.check(got[0] == 'raised' and type(got[1]) is links[0], 'another error')
    elif cause is None or any([issubclass(x, cause) for x in links]):
        g.check(got[0] == 'passed', 'passes')
    else:
        g.check(got[0] == 'failed', 'without the cause')


ALL = tuple(DESCRIPTORS)
HARNESSES = [
    Harness(reads, dict(n=1, kinds=ALL), dict(n=3, kinds=ALL)),
    Harness(refuses, dict(n=1, kinds=ALL), dict(n=3, kinds=ALL)),
    Harness(writes, dict(n=2), dict(n=4)),
    Harness(causes, dict(depth=3), dict(depth=4)),
]
