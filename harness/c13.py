"""C13: how an unquoted terminal is typed."""
import marsh
from symx.base import Harness

DIGITS = '0123456789'


def integers(g, n):
    """Digits are read as exactly the integer they spell, however long."""
    sign = g.choice('sign', ('', '-', '+'))
    s = sign + g.str('s', n, 1, alphabet=DIGITS)
    got = marsh.parse.terminal(s)
    g.observe('got', got)
    g.check(type(got) is int, 'type')
    g.check(got == int(s), 'value')


def decimals(g, n, m):
    """A decimal literal is the number it spells; type int exactly when it is integral."""
    a = g.str('a', n, 1, alphabet=DIGITS)
    b = g.str('b', m, 1, alphabet=DIGITS)
    s = a + '.' + b
    got = marsh.parse.terminal(s)
    want = float(s)
    g.check(got == want, 'value')
    g.check((type(got) is int) == (want == int(want)), 'type')


def exponents(g, n, m):
    """So is a literal with an exponent."""
    a = g.str('a', n, 1, alphabet=DIGITS)
    b = g.choice('b', m)
    s = a + g.choice('e', ('e', 'E', '.e', '.5e')) + b
    got = marsh.parse.terminal(s)
    want = float(s)
    g.check(got == want, 'value')
    g.check((type(got) is int) == (want == int(want)), 'type')


def quoted(g, n):
    """Anything in quotes is a string."""
    s = g.str('s', n)
    q = g.choice('q', ('"', "'"))
    g.assume(g.Not(q in s))
    g.assume(g.Not('\\' in s))
    got = marsh.parse.terminal(q + s + q)
    g.check(type(got) is str, 'type')
    g.check(got == s, 'value')


def words(g, n):
    """Letters are a string unless they spell a keyword, in any case."""
    s = g.str('s', n, 1, alphabet='abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ')
    got = marsh.parse.terminal(s)
    low = s.lower()
    if low == 'true':
        g.check(got is True, 'true')
    elif low == 'false':
        g.check(got is False, 'false')
    elif low == 'null':
        g.check(got is None, 'null')
    elif low == 'nan' or low == 'inf' or low == 'infinity':
        g.check(type(got) is float, 'float keyword')
    else:
        g.check(type(got) is str, 'type')
        g.check(got == s, 'value')


def anything(g, n):
    """Whatever the text, a non-number is kept verbatim and a number has its value."""
    s = g.str('s', n, 1)
    g.assume(g.And(*[g.Not(c in s) for c in '\\"\'']))
    g.assume(g.Not(s[0].isspace()))
    got = marsh.parse.terminal(s)
    try:
        want = float(s)
    except ValueError:
        low = s.lower()
        for k, v in (('true', True), ('false', False), ('null', None)):
            if low == k:
                g.check(got is v, 'keyword')
                return
        g.check(type(got) is str, 'type')
        g.check(got == s, 'text')
        return
    g.check(isinstance(got, (int, float)) and not isinstance(got, bool), 'number type')
    if want == want:
        g.check(got == want, 'number')


HARNESSES = [
    Harness(integers, dict(n=20), dict(n=30)),
    Harness(decimals, dict(n=3, m=3), dict(n=6, m=6)),
    Harness(exponents, dict(n=1, m=('0', '-1', '+2', '17')), dict(n=2, m=('0', '-1', '-2', '+2', '3', '17', '22', '-20'))),
    Harness(quoted, dict(n=4), dict(n=7)),
    Harness(words, dict(n=5), dict(n=8)),
    Harness(anything, dict(n=3), dict(n=4)),
]
