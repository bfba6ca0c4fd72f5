"""C33: casting is unmarshaling what a value marshals to; keyword arguments are fields that win."""
import collections
import dataclasses
from typing import Any, Dict, List, Optional, Tuple, Union

import marsh
from symx.base import Harness
from harness import elements as R
from harness import ref as F
from harness import types_pool as T

RECS = dict(point=T.POINT, sized=T.SIZED, pair=T.PAIR, full=T.FULL, plain=T.PLAIN, outer=T.OUTER,
            open=T.SIGS['open'])
NAMES = {w: [f[0] for f in d.fields] for w, d in RECS.items() if w != 'open'}
NAMES['open'] = ['a', 'k']


def run(t, *args, **kwargs):
    try:
        return 'ok', marsh.unmarshal(t, *args, **kwargs)
    except marsh.errors.MarshError as err:
        return 'no', err
    except TypeError as err:
        return 'type', err


def copied(e):
    if R.is_map(e):
        return dict([(k, copied(v)) for k, v in e.items()])
    if isinstance(e, (list, tuple)):
        return [copied(v) for v in e]
    return e


def keywords(g, which, most, objects=False, **cfg):
    """Fields by keyword are as good as fields of the element, and win over them."""
    d = RECS[which]
    cfg['faults'] = cfg.get('faults', 1)
    form = g.choice('form', ('mapping', 'nothing', 'missing', 'other'))
    if form == 'mapping':
        e = d.gen(g, 'e', dict(cfg, rec=('map',), wrong=False))
    elif form == 'other':
        e = F.misfit(g, 'e', ('none', 'int', 'str', 'seq'))
    else:
        e = marsh.MISSING
    names = NAMES[which] + ['unknown']
    kwargs = {}
    for name in names:
        if len(kwargs) < most and g.choice('by keyword ' + name, (False, True)):
            if name in ('unknown', 'k'):
                kwargs[name] = g.int('kw ' + name)
            elif which == 'open':
                kwargs[name] = T.INT.gen(g, 'kw ' + name, cfg)
            else:
                field = [f for f in d.fields if f[0] == name][0]
                kwargs[name] = field[1].gen(g, 'kw ' + name, cfg)
    before = copied(e)
    given = copied(kwargs)
    got = run(d.t, **kwargs) if form == 'nothing' else run(d.t, e, **kwargs)
    g.check(g.same(copied(e), before), 'the element is not modified')
    g.check(g.same(copied(kwargs), given), 'the keyword arguments are not modified')
    if kwargs and form == 'other':
        g.check(got[0] == 'type', 'keyword arguments need a mapping')
        return
    whole = e
    if kwargs:
        whole = {} if R.missing(e) else dict(e)
        for k, v in kwargs.items():
            whole[k] = v
    want = F.expect(d, whole)
    g.cover(want[0])
    g.check(got[0] == want[0], 'accepted')
    if got[0] == want[0] == 'ok':
        g.observe('got', F.view(got[1]))
        g.check(g.same(F.view(got[1]), F.view(want[1])), 'value')


@dataclasses.dataclass
class Holder:
    p: T.Point
    q: List[int] = dataclasses.field(default_factory=list)
    d: Optional[Dict[str, int]] = None


def objects(g, n):
    """Keyword arguments are values, elements or not."""
    x, y = g.int('x'), g.str('y', n)
    g.assume(y != '???')  # missing
    p = T.Point(x, y) if g.choice('p', (True, False)) else {'x': x, 'y': y}
    kwargs = {'p': p}
    q = [g.int(f'q{i}') for i in range(g.choice('qs', (0, 1, 2)))]
    form = g.choice('q', ('none', 'list', 'deque', 'set'))
    if form != 'none':
        kwargs['q'] = {'list': q, 'deque': collections.deque(q)}.get(form, {7})
    if g.choice('d', (False, True)):
        kwargs['d'] = collections.OrderedDict([('k', g.int('d.k'))])
    e = g.choice('e', ('missing', 'empty', 'full'))
    element = {'missing': marsh.MISSING, 'empty': {}, 'full': {'p': {'x': 0, 'y': 'e'}, 'q': [9], 'd': {'e': 1}}}[e]
    got = marsh.unmarshal(Holder, element, **kwargs)
    g.check(type(got) is Holder and type(got.p) is T.Point, 'type')
    g.check(g.same([got.p.x, got.p.y], [p['x'], p['y']] if isinstance(p, dict) else [p.x, p.y]), 'field')
    g.check(g.same(got.q, {'none': [9] if e == 'full' else [], 'set': [7]}.get(form, q)), 'field')
    if 'd' in kwargs:
        g.check(type(got.d) is dict and g.same(got.d, {'k': kwargs['d']['k']}), 'field')
    else:
        g.check(got.d == ({'e': 1} if e == 'full' else None), 'field')
    if e == 'full':
        g.check(element == {'p': {'x': 0, 'y': 'e'}, 'q': [9], 'd': {'e': 1}}, 'the element is not modified')


TARGETS = dict(
    int=T.INT, str=T.STR, bool=T.BOOL, float=T.FLOAT, ints=F.Seq(T.INT), strs=F.Seq(T.STR),
    map_str=F.Map(T.STR, T.STR), map_int=F.Map(T.STR, T.INT), optional=F.Opt(T.INT), any=T.ANY,
    point=T.POINT, pair=T.PAIR, full=T.FULL, two=F.fixed(T.STR, T.STR), union=F.Un(T.INT, T.STR),
    outer=T.OUTER, sized=T.SIZED)


def value(g, kind, n):
    """A value, and the plain element of its contents."""
    if kind == 'prim':
        v = g.choice('prim', ('int', 'str', 'bool', 'none', 'missing'))
        v = {'int': lambda: g.int('v', -999, 999), 'str': lambda: g.str('v', n, alphabet='ascii'), 'bool': lambda: g.bool('v'),
             'none': lambda: None, 'missing': lambda: marsh.MISSING}[v]()
        return v, v
    if kind == 'list':
        v = [g.int(f'v{i}', -999, 999) if i else g.str('v0', n, alphabet='ascii') for i in range(g.choice('len', (0, 1, 2)))]
        form = g.choice('container', ('list', 'tuple', 'deque'))
        return {'list': v, 'tuple': tuple(v), 'deque': collections.deque(v)}[form], v
    x, y = g.int('x', -999, 999), g.str('y', n, alphabet='ascii')
    if kind == 'point':
        return T.Point(x, y), {'x': x, 'y': y}
    if kind == 'pair':
        return T.Pair(x, y), {'a': x, 'b': y}
    if kind == 'dict':
        k = g.str('k', 1, 1, alphabet='ascii')
        return {k: x, 'b': y} if g.choice('two', (False, True)) and k != 'b' else {k: x}, None
    if kind == 'outer':
        return T.Outer(T.Point(x, y), [x]), {'p': {'x': x, 'y': y}, 'q': [x]}
    if kind == 'sized':
        return T.Sized(x, [x], None), {'n': x, 'items': [x], 'm': None}
    if kind == 'points':
        return {'k': T.Point(x, y)}, {'k': {'x': x, 'y': y}}
    return [T.Pair(x, y)], [{'a': x, 'b': y}]


KINDS = ('prim', 'list', 'point', 'pair', 'dict', 'outer', 'sized', 'points', 'pairs')


def shown(v):
    return F.view(v) if not isinstance(v, tuple) or hasattr(v, '_fields') else [F.view(x) for x in v]


def plainly(e):
    """Sequences as lists."""
    if isinstance(e, dict):
        return dict([(k, plainly(x)) for k, x in e.items()])
    if type(e) in (list, tuple):
        return [plainly(x) for x in e]
    return e


def casting(g, kinds, targets, n):
    """The value of the target with the contents of the given value."""
    v, e = value(g, g.choice('kind', kinds), n)
    if e is None and isinstance(v, dict):
        e = v
    which = g.choice('target', targets)
    d = TARGETS[which]
    want = F.expect(d, e)
    try:
        got = 'ok', marsh.cast(d.t, v)
    except marsh.errors.UnmarshalError as err:
        got = 'no', err
    g.cover(want[0])
    g.check(got[0] == want[0], 'accepted')
    if got[0] == want[0] == 'ok':
        if which == 'any':
            g.check(g.same(plainly(got[1]), plainly(want[1])), 'value')
        else:
            g.check(g.same(F.view(got[1]), F.view(want[1])), 'value')


def arguments(g, which, n, **cfg):
    """The arguments of a callable out of any value."""
    d = T.SIGS[which]
    form = g.choice('form', ('element', 'point', 'pair'))
    if form == 'element':
        v = e = d.gen(g, 'e', dict(cfg, faults=1))
        if R.is_seq(e) and g.choice('deque', (False, True)):
            v = collections.deque(e)
    elif form == 'point':
        v, e = value(g, 'point', n)
    else:
        v, e = value(g, 'pair', n)
    want = F.expect(d, e)
    try:
        a = marsh.cast_args(d.fn, v)
        got = 'ok', d.fn(*a.args, **a.kwargs)
    except marsh.errors.UnmarshalError as err:
        got = 'no', err
    g.check(got[0] == want[0], 'accepted')
    if got[0] == want[0] == 'ok':
        g.check(g.same(F.view(got[1]), F.view(want[1])), 'arguments')


def same_type(g, which, **cfg):
    """Casting to its own type gives an equal new value."""
    d = RECS[which]
    e = d.gen(g, 'e', dict(cfg, faults=0, wrong=False))
    first = F.run(d.t, e)
    g.assume(first[0] == 'ok')
    again = marsh.cast(d.t, first[1])
    g.check(type(again) is type(first[1]), 'type')
    g.check(g.same(F.view(again), F.view(first[1])), 'value')


CFG = dict(leaf='two', width=1)
HARNESSES = [Harness(keywords, dict(CFG, which=w, most=1), dict(CFG, width=2, which=w, most=2), name='keywords_' + w,
                     weight=2) for w in RECS]
HARNESSES += [
    Harness(objects, dict(n=2), dict(n=4)),
    Harness(casting, dict(kinds=KINDS, targets=tuple(TARGETS), n=2), dict(kinds=KINDS, targets=tuple(TARGETS), n=3),
            weight=2),
]
HARNESSES += [Harness(arguments, dict(CFG, which=w, n=1), dict(CFG, which=w, n=2, extra=2), name='arguments_' + w)
              for w in T.SIGS]
HARNESSES += [Harness(same_type, dict(CFG, which=w), dict(CFG, width=2, which=w), name='same_' + w)
              for w in ('point', 'sized', 'pair', 'outer')]
