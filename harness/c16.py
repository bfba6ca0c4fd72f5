"""C16: exactly the documented words are truth values."""
import marsh
from symx.base import Harness

TRUE = ('1', 'true', 'y', 'yes', 'on')
FALSE = ('0', 'false', 'n', 'no', 'off')


def spells(g, s, word):
    if len(s) != len(word):
        return False
    return g.And(*[g.Or(c == w, c == w.upper()) for c, w in zip(s, word)])


def language(g, n, route, alphabet):
    s = g.str('s', n, alphabet=alphabet)
    want_true = g.Or(*[spells(g, s, w) for w in TRUE])
    want_false = g.Or(*[spells(g, s, w) for w in FALSE])
    try:
        got = ROUTES[route](s)
    except (ValueError, marsh.errors.UnmarshalError):
        g.check(g.Not(g.Or(want_true, want_false)), 'documented word refused')
        return
    g.check(g.Or(got is True, got is False), 'type')
    g.check(g.Implies(got, want_true), 'true')
    g.check(g.Implies(g.Not(got), want_false), 'false')


def str_to_bool(s):
    return marsh.utils.str_to_bool(s)


def cast(s):
    return marsh.utils.cast_primitive(bool, s)


def unmarshal(s):
    return marsh.unmarshal(bool, s)


ROUTES = {'str_to_bool': str_to_bool, 'cast': cast, 'unmarshal': unmarshal}

HARNESSES = [
    Harness(language, dict(n=3, route='str_to_bool', alphabet='uni'),
            dict(n=4, route='str_to_bool', alphabet='uni'), name='str_to_bool'),
    Harness(language, dict(n=7, route='str_to_bool', alphabet='ascii'),
            dict(n=20, route='str_to_bool', alphabet='ascii'), name='str_to_bool_ascii'),
    Harness(language, dict(n=3, route='cast', alphabet='uni'),
            dict(n=4, route='cast', alphabet='uni'), name='cast'),
    Harness(language, dict(n=7, route='cast', alphabet='ascii'),
            dict(n=20, route='cast', alphabet='ascii'), name='cast_ascii'),
    Harness(language, dict(n=3, route='unmarshal', alphabet='uni'),
            dict(n=4, route='unmarshal', alphabet='uni'), name='unmarshal'),
    Harness(language, dict(n=7, route='unmarshal', alphabet='ascii'),
            dict(n=20, route='unmarshal', alphabet='ascii'), name='unmarshal_ascii'),
]
