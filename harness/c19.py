"""C19: structured types take exactly their own fields, by name or by position."""
import marsh
from symx.base import Harness
from harness import ref as F
from harness import types_pool as T

RECS = dict(point=T.POINT, sized=T.SIZED, keyed=T.KEYED, given=T.GIVEN, pair=T.PAIR, full=T.FULL,
            part=T.PART, plain=T.PLAIN, outer=T.OUTER, fixed=F.fixed(T.INT, T.STR),
            nested=F.fixed(T.INT, T.POINT), node=T.NODE)


def fields(g, which, **cfg):
    """Unknown fields and missing values are refused; all others arrive where they belong."""
    d = RECS[which]
    F.agree(g, d, d.gen(g, 'e', cfg))


def calls(g, which, **cfg):
    """Arguments reach the parameters of a callable as in a Python call."""
    d = T.SIGS[which]
    F.agree(g, d, d.gen(g, 'e', cfg))


def by_position(g, which, **cfg):
    """Values in order mean the same as values by name."""
    d = RECS[which]
    n = g.choice('n', tuple(range(len(d.fields) + 1)))
    vals = [d.fields[i][1].gen(g, f'v{i}', cfg) for i in range(n)]
    a = F.run(d.t, vals)
    b = F.run(d.t, dict([(d.fields[i][0], v) for i, v in enumerate(vals)]))
    g.check(a[0] == b[0], 'both or none')
    if a[0] == 'ok':
        g.check(g.same(F.view(a[1]), F.view(b[1])), 'same value')


CFG = dict(leaf='two', width=1)
ONE = dict(CFG, faults=1)
DEEP = dict(leaf='all', width=2, keymax=4, faults=2)
QUICK = dict(sized=dict(CFG, faults=2), keyed=dict(CFG, faults=2), outer=dict(ONE, order=False), nested=dict(ONE, order=False),
             node=dict(ONE, order=False))
HARNESSES = [Harness(fields, dict(QUICK.get(w, CFG), which=w),
                     dict(DEEP if w not in QUICK else CFG, which=w), name='fields_' + w, weight=2)
             for w in RECS if w != 'node']
HARNESSES += [Harness(calls, dict(which=w, leaf='two', keymax=2, faults=1),
                      dict(which=w, leaf='two', keymax=4, extra=2),
                      name='calls_' + w, weight=2) for w in T.SIGS]
HARNESSES += [Harness(by_position, dict(which=w, **CFG), dict(which=w, **DEEP), name='by_position_' + w)
              for w in ('point', 'keyed', 'given', 'pair', 'full', 'part', 'plain', 'fixed')]
