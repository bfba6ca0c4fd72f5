"""C38: slices are read as Python writes them."""
import marsh
from symx.base import Harness
from harness import ref as F
from harness import elements as R


def part(s):
    """A bound: nothing, or an optional minus sign and digits, spaces around them."""
    s = s.strip()
    if s == '':
        return None
    neg = False
    if s[0] == '-':
        neg = True
        s = s[1:].strip()
    if s == '' or not s.isdecimal():
        raise F.Refused()
    return -int(s) if neg else int(s)


def parse(s):
    parts = s.split(':')
    if len(parts) not in (2, 3):
        raise F.Refused()
    vals = [part(p) for p in parts]
    while len(vals) < 3:
        vals.append(None)
    return vals


def compare(g, got, want):
    if want is None:
        g.check(got[0] == 'no', 'refused')
        if got[0] == 'no':
            g.check(isinstance(got[1], marsh.errors.UnmarshalError), 'unmarshal error')
        return
    g.check(got[0] == 'ok', 'accepted')
    if got[0] == 'ok':
        g.check(type(got[1]) is slice, 'slice')
        g.check(g.same([got[1].start, got[1].stop, got[1].step], want), 'bounds')


def text(g, n, alphabet):
    s = g.str('s', n, alphabet=alphabet)
    got = F.run(slice, s)
    try:
        want = parse(s)
    except F.Refused:
        want = None
        if s == '???':
            want = [None, None, None]
    compare(g, got, want)


def items(g, n, **cfg):
    d = F.Seq(F.Opt(F.Prim(int)))
    e = d.gen(g, 'e', dict(cfg, width=n, wrong=False))
    got = F.run(slice, e)
    want = F.expect(d, e)
    if want[0] == 'no' or len(e) > 3:
        want = None
    else:
        # as for slice(): a single bound is where it stops
        w = want[1]
        want = [None] * 3 if not w else [None, w[0], None] if len(w) == 1 else w + [None] * (3 - len(w))
    compare(g, got, want)


def named(g, **cfg):
    opt = F.Opt(F.Prim(int))
    d = F.Rec(None, [('start', opt, lambda: None), ('stop', opt, lambda: None), ('step', opt, lambda: None)],
              lambda v: [v['start'], v['stop'], v['step']])
    e = d.gen(g, 'e', dict(cfg, rec=('map',), wrong=False, order=False))
    got = F.run(slice, e)
    want = F.expect(d, e)
    compare(g, got, want[1] if want[0] == 'ok' else None)


def number(g):
    """Numbers and other values are no slices."""
    k = g.choice('kind', ('int', 'none', 'bool', 'float'))
    e = {'int': lambda: g.int('e', -99, 99), 'none': lambda: None, 'bool': lambda: g.bool('e'),
         'float': lambda: 1.5}[k]()
    compare(g, F.run(slice, e), None)


HARNESSES = [
    Harness(text, dict(n=6, alphabet='0123456789:- \tx'), dict(n=8, alphabet='0123456789:- \tx'), weight=3),
    Harness(text, dict(n=3, alphabet='uni'), dict(n=4, alphabet='uni'), name='text_uni', weight=3),
    Harness(items, dict(n=4, leaf='all', faults=1), dict(n=4, leaf='all', faults=2)),
    Harness(named, dict(leaf='all', faults=1, keymax=4), dict(leaf='all', faults=2, keymax=6)),
    Harness(number),
]
