"""C11: parsing any string ends with a value or a parse error, nothing else."""
import marsh
from symx.base import Harness

P = marsh.parse
STRUCT = '{}[](),:\\"\' a1.~=+@\n'

NUM = '019.eE+-_ naifNT"\\'


def is_element(g, e, depth=0):
    """JSON-like: mapping with string keys, sequence, or a terminal."""
    if isinstance(e, dict):
        for k, v in e.items():
            g.check(isinstance(k, str), 'mapping key is a string')
            is_element(g, v, depth + 1)
    elif isinstance(e, (list, tuple)):
        for v in e:
            is_element(g, v, depth + 1)
    else:
        g.check(e is None or isinstance(e, (bool, int, float, str)), 'terminal type')


def _parse(g, fn, s):
    try:
        out = fn(s)
    except P.ParseError as err:
        g.cover('refused')
        g.check(isinstance(err, marsh.errors.MarshError), 'parse errors are marsh errors')
        g.check(isinstance(str(err), str), 'printable')
        return None
    g.cover('parsed')
    return (out,)


def element(g, n):
    s = g.str('s', n, alphabet=STRUCT)
    out = _parse(g, P.element, s)
    if out:
        g.observe('out', out[0])
        is_element(g, out[0])


def terminal(g, n, alphabet='uni'):
    s = g.str('s', n, alphabet=alphabet)
    out = _parse(g, P.terminal, s)
    if out:
        is_element(g, out[0])
        g.check(not isinstance(out[0], (dict, list, tuple)), 'terminal')


def string(g, n):
    s = g.str('s', n)
    out = _parse(g, P.string, s)
    if out:
        g.observe('out', out[0])
        g.check(isinstance(out[0], str), 'string')


def sequence(g, n):
    s = g.choice('o', ('', '[', '(')) + g.str('s', n, alphabet=STRUCT)
    out = _parse(g, P.sequence, s)
    if out:
        g.check(isinstance(out[0], (list, tuple)), 'sequence')
        is_element(g, out[0])


def mapping(g, n):
    s = g.choice('o', ('', '{')) + g.str('s', n, alphabet=STRUCT)
    out = _parse(g, P.mapping, s)
    if out:
        g.check(isinstance(out[0], dict), 'mapping')
        is_element(g, out[0])


def override(g, n):
    s = g.str('s', n, alphabet=STRUCT)
    out = _parse(g, P.override, s)
    if out:
        o = out[0]
        g.check(isinstance(o, P.Override), 'override')
        g.check(isinstance(o.path, str), 'path')


def names(g, n):
    s = g.str('s', n, alphabet=STRUCT)
    out = _parse(g, P.config_names, s)
    if out:
        g.observe('out', list(out[0]))
        for x in out[0]:
            g.check(isinstance(x, str), 'name')


def apply(g, n):
    """Parsing and applying any override only ever fails with a marsh error."""
    s = g.str('s', n, alphabet='~a.=+1[] "')
    try:
        o = P.override(s)
        if isinstance(o, P.SetConfig):
            return
        e = o.apply(g.choice('e', ({'a': 1}, (1,), 5, marsh.MISSING)))
    except marsh.errors.MarshError:
        return
    is_element(g, e)


HARNESSES = [
    Harness(element, dict(n=4), dict(n=6), weight=3),
    Harness(terminal, dict(n=3), dict(n=4)),
    Harness(terminal, dict(n=5, alphabet=NUM), dict(n=7, alphabet=NUM), name='terminal_numbers'),
    Harness(string, dict(n=4), dict(n=7)),
    Harness(sequence, dict(n=4), dict(n=6)),
    Harness(mapping, dict(n=5), dict(n=7)),
    Harness(override, dict(n=4), dict(n=6)),
    Harness(names, dict(n=4), dict(n=6)),
    Harness(apply, dict(n=4), dict(n=6)),
]
