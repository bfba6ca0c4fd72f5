"""C15: casting between primitive types keeps the value or fails."""
import marsh
from symx.base import Harness

U = marsh.utils
DIG = '0123456789'
NUM = '019.+-eE_ na'


def cast(g, type_, value):
    """The cast value, or None when refused; anything else but ValueError escapes."""
    try:
        return (U.cast_primitive(type_, value),)
    except ValueError:
        return None


def unmarshaled(g, type_, value):
    try:
        return (marsh.unmarshal(type_, value),)
    except marsh.errors.UnmarshalError:
        return None


ROUTES = {'cast': cast, 'unmarshal': unmarshaled}


def to_int(g, route):
    """Numbers become the equal int, or are refused when they have decimals."""
    f = ROUTES[route]
    kind = g.choice('kind', ('int', 'float', 'bool', 'inf', '-inf', 'nan'))
    if kind == 'int':
        v = g.int('v')
    elif kind == 'float':
        v = g.float('v')
    elif kind == 'bool':
        v = g.bool('v')
    else:
        v = float(kind)
    got = f(g, int, v)
    if kind in ('inf', '-inf', 'nan'):
        g.check(got is None, 'refused')
        return
    if got is None:
        g.check(kind == 'float', 'only floats are refused')
        g.check(not v.is_integer(), 'only decimals are refused')
        return
    g.check(type(got[0]) is int, 'type')
    g.check(got[0] == v, 'value')


def text_to_int(g, n, route):
    """Digits are exactly the int they spell; all else is a whole number or refused."""
    f = ROUTES[route]
    s = g.str('s', n, alphabet=NUM)
    got = f(g, int, s)
    try:
        want = int(s)
    except ValueError:
        want = None
    if want is not None:
        g.check(got is not None, 'accepted')
        if got is not None:
            g.check(type(got[0]) is int, 'type')
            g.check(got[0] == want, 'value')
        return
    try:
        want = float(s)
    except ValueError:
        g.check(got is None, 'text refused')
        return
    if got is None:
        g.check(not want.is_integer(), 'only decimals are refused')
        return
    g.check(type(got[0]) is int, 'type')
    g.check(got[0] == want, 'value')


def long_digits(g, n, route):
    """No digit is lost, however long the number."""
    f = ROUTES[route]
    s = g.choice('sign', ('', '-', '+')) + g.str('s', n, 1, alphabet=DIG)
    got = f(g, int, s)
    g.check(got is not None, 'accepted')
    if got is not None:
        g.check(got[0] == int(s), 'value')


def to_float(g, route):
    f = ROUTES[route]
    kind = g.choice('kind', ('int', 'float', 'bool', 'huge'))
    if kind == 'huge':
        g.check(f(g, float, g.choice('huge', (10 ** 400, -10 ** 309))) is None, 'no float is that large')
        return
    v = g.int('v', -2 ** 53, 2 ** 53) if kind == 'int' else g.float('v') if kind == 'float' else g.bool('v')
    got = f(g, float, v)
    g.check(got is not None, 'accepted')
    if got is not None:
        g.check(type(got[0]) is float, 'type')
        g.check(got[0] == v, 'value')


def text_to_float(g, n, route):
    f = ROUTES[route]
    s = g.str('s', n, alphabet='019.-eE _na')
    got = f(g, float, s)
    try:
        want = float(s)
    except ValueError:
        g.check(got is None, 'refused')
        return
    g.check(got is not None, 'accepted')
    if got is not None:
        g.check(type(got[0]) is float, 'type')
        if want == want:
            g.check(got[0] == want, 'value')
        else:
            g.check(got[0] != got[0], 'nan')


def to_str(g, n, route):
    f = ROUTES[route]
    kind = g.choice('kind', ('str', 'int', 'bool'))
    v = g.str('v', n) if kind == 'str' else g.int('v', -9999, 9999) if kind == 'int' else g.bool('v')
    if kind == 'str' and route == 'unmarshal':
        g.assume(v != '???')
    got = f(g, str, v)
    g.check(got is not None, 'accepted')
    if got is not None:
        g.check(type(got[0]) is str, 'type')
        g.check(got[0] == (v if kind == 'str' else str(v)), 'value')


def to_bool(g, route):
    """Numbers other than 0 and 1 are not truth values."""
    f = ROUTES[route]
    kind = g.choice('kind', ('int', 'float', 'bool'))
    if kind == 'int':
        v = g.int('v', -999, 999)
    elif kind == 'float':
        v = g.choice('f', (0.0, -0.0, 1.0, 0.5, -1.0, 2.0, 10.0, 1e300, float('inf'), float('nan')))
    else:
        v = g.bool('v')
    got = f(g, bool, v)
    if got is None:
        g.check(g.And(v != 0, v != 1), 'only other numbers are refused')
        return
    g.check(type(got[0]) is bool, 'type')
    g.check(got[0] == v, 'value')


def int_subclass(g):
    """Casting to a subclass of int gives an instance of the subclass with the same value."""
    kind = g.choice('kind', ('int', 'float', 'str'))
    if kind == 'int':
        v = g.choice('i', (-2, -1, 0, 1, 7, 10 ** 20))
    elif kind == 'float':
        v = g.choice('f', (3.0, -2.0, 0.0, 1.5))
    else:
        v = g.choice('s', ('3', '-7', '2.0', '1.5', 'x'))
    got = cast(g, Sub, v)
    if got is None:
        g.check(kind != 'int', 'ints accepted')
        g.check(v == 1.5 or v == '1.5' or v == 'x', 'refused')
        return
    g.check(type(got[0]) is Sub, 'type')
    g.check(int(got[0]) == int(float(v)), 'value')


class Sub(int):
    pass


HARNESSES = []
for _r in ('cast', 'unmarshal'):
    _s = '' if _r == 'cast' else '_unmarshal'
    HARNESSES += [
        Harness(to_int, dict(route=_r), name='to_int' + _s),
        Harness(text_to_int, dict(n=5, route=_r), dict(n=6, route=_r), name='text_to_int' + _s),
        Harness(long_digits, dict(n=20, route=_r), dict(n=40, route=_r), name='long_digits' + _s),
        Harness(to_float, dict(route=_r), name='to_float' + _s),
        Harness(text_to_float, dict(n=5, route=_r), dict(n=7, route=_r), name='text_to_float' + _s),
        Harness(to_str, dict(n=4, route=_r), dict(n=8, route=_r), name='to_str' + _s),
        Harness(to_bool, dict(route=_r), name='to_bool' + _s),
    ]
HARNESSES.append(Harness(int_subclass))
