"""C23: a marshaled value is read back as the same value."""
import collections
import enum
import logging
import typing
from typing import Annotated, DefaultDict, Deque, Dict, List, Literal, Mapping, Optional, Set, Tuple

import marsh
from symx.base import Harness
from harness import elements as R
from harness import ref as F
from harness import types_pool as T
from harness.c18 import Level, Swap, Word

I, S, B, FL = T.INT, T.STR, T.BOOL, T.FLOAT
UNION = F.Un(I, F.Seq(F.Un(B, F.Seq(FL))))


def seq(d, t, make):
    return F.Seq(d, t, make)


def mapping(k, v, t):
    return F.Map(k, v, t)


POOL = {
    'int': I, 'str': S, 'bool': B, 'float': FL, 'none': T.NONE, 
    'list': F.Seq(I), 'strs': F.Seq(S), 'matrix': F.Seq(F.Seq(I)), 'vartuple': seq(I, Tuple[int, ...], tuple),
    'tuple': F.fixed(I, S, F.Seq(B)), 'deque': seq(I, Deque[int], collections.deque),
    'sequence': seq(S, typing.Sequence[str], tuple), 'mutseq': seq(S, typing.MutableSequence[str], list),
    'dict': F.Map(S, I), 'dict_int': F.Map(I, S, Dict[int, str]), 'dict_bool': F.Map(B, I, Dict[bool, int]),
    'dict_dict': F.Map(S, F.Map(S, I)),
    'mutmap': mapping(S, F.Seq(I), typing.MutableMapping[str, List[int]]),
    'optional': F.Opt(I), 'optional_list': F.Seq(F.Opt(F.Seq(F.Opt(B)))), 'union': UNION,
    'literal': F.Lit('a', 2, False), 'enum': T.COLOR, 'swap': F.En(Swap), 'enums': F.Seq(T.COLOR),
    'point': T.POINT, 'sized': T.SIZED, 'keyed': T.KEYED, 'outer': T.OUTER, 'node': T.NODE, 'pair': T.PAIR,
    'full': T.FULL, 'part': T.PART, 'points': F.Map(S, T.POINT), 'pairs': F.Seq(T.PAIR),
    'positive': F.Seq(T.POSITIVE), 'deep': F.Map(S, F.fixed(T.PAIR, F.Opt(T.POINT))),
}


def back(g, d, v):
    e = marsh.marshal(v)
    got = F.run(d, e)
    g.check(got[0] == 'ok', 'accepted')
    if got[0] == 'ok':
        g.check(type(got[1]) is type(v), 'type')
        g.check(g.same(F.view(got[1]), F.view(v)), 'value')


def present(g, kinds):
    def make(name):
        kind = g.choice(name + '.t', kinds)
        if kind == 'str':
            return g.str(name, 3, alphabet='ascii')
        return {'int': g.int, 'bool': g.bool, 'float': g.float}[kind](name) if kind in ('int', 'bool', 'float') \
            else {'none': None, 'map': {}, 'seq': ()}[kind]
    return make


def anything(g, depth, width, kinds):
    v = g.tree('e', depth, width, keymax=2, leaf=present(g, kinds))
    g.assume(not R.any_missing(v))
    got = marsh.unmarshal(typing.Any, marsh.marshal(v))
    g.check(g.same(R.norm(got), R.norm(v)), 'value')


def roundtrip(g, which, **cfg):
    d = POOL[which]
    cfg = dict(cfg, leaf='fit', wrong=False, extra=False, order=False, faults=0, single=True)
    try:
        v = d.ref(d.gen(g, 'e', cfg))
    except F.Refused:
        g.assume(False)
    back(g, d.t, v)


def number(g, name):
    return g.choice(name, (0.0, -1.5, 2.0, 1e300, float('inf'), 1e-13, -5e-324, 2.5e16))


def others(g, which):
    """Types whose values hold no symbolic parts, and bytes."""
    if which == 'bytes':
        back(g, bytes, g.bytes('v', 4))
    elif which == 'complex':
        back(g, complex, complex(number(g, 'real'), number(g, 'imag')))
    elif which == 'slice':
        bounds = [g.int(f'b{i}') if g.choice(f'g{i}', (False, True)) else None for i in range(3)]
        v = slice(*bounds)
        e = marsh.marshal(v)
        got = marsh.unmarshal(slice, e)
        g.check(g.same([got.start, got.stop, got.step], bounds), 'bounds')
    elif which == 'set':
        v = g.choice('v', (set(), {1}, {1, 2, 3}, {-1, -2}))
        got = marsh.unmarshal(Set[int], marsh.marshal(v))
        g.check(type(got) is set, 'type')
        g.check(got == v, 'value')
    elif which == 'int_enum':
        back(g, Level, g.choice('v', tuple(Level)))
    elif which == 'str_enum':
        back(g, Word, g.choice('v', tuple(Word)))
    elif which == 'enum_keys':
        back(g, Dict[T.Color, int], dict([(m, g.int(m.name)) for m in T.Color if g.choice('has ' + m.name, (True, False))]))
    elif which == 'bytes_keys':
        back(g, Dict[bytes, int], {g.bytes('k', 3): g.int('v')})
    elif which == 'float_keys':
        back(g, Dict[float, int], {number(g, 'k'): g.int('v')})
    elif which == 'word_keys':
        back(g, Dict[Word, int], dict([(m, g.int(m.name)) for m in Word]))
    elif which == 'defaultdict':
        v = collections.defaultdict(int, [(g.str('k', 2), g.int('v'))])
        e = marsh.marshal(v)
        got = marsh.unmarshal(DefaultDict[str, int], e)
        g.check(type(got) is collections.defaultdict, 'type')
        g.check(g.same(dict(got), dict(v)), 'value')
        g.check(got['another key'] == 0, 'default')
    elif which == 'ordered':
        v = collections.OrderedDict([('b', g.int('b')), ('a', g.int('a'))])
        got = marsh.unmarshal(typing.OrderedDict[str, int], marsh.marshal(v))
        g.check(type(got) is collections.OrderedDict, 'type')
        g.check(g.same(list(got.items()), list(v.items())), 'value')
    elif which == 'frozen_map':
        v = {g.str('k', 2): g.int('v')}
        got = marsh.unmarshal(Mapping[str, int], marsh.marshal(v))
        g.check(g.same(list(got.items()), list(v.items())), 'value')
    elif which == 'literal_bytes':
        back(g, Literal[b'ab', 'x', b'c'], g.choice('v', (b'ab', 'x', b'c')))


REST = ('bytes', 'complex', 'slice', 'set', 'int_enum', 'str_enum', 'enum_keys', 'bytes_keys', 'float_keys',
        'word_keys', 'defaultdict', 'ordered', 'frozen_map', 'literal_bytes')
CFG = dict(width=2, strmax=2, keymax=2)
HARNESSES = [Harness(roundtrip, dict(CFG, which=w), dict(width=3 if w not in ('deep', 'dict_bool') else 2, strmax=4, keymax=3, which=w), name=w)
             for w in POOL if w != 'node']
LEAVES = ('int', 'str', 'bool', 'float', 'none', 'map', 'seq')
HARNESSES += [Harness(anything, dict(depth=1, width=2, kinds=LEAVES), dict(depth=1, width=3, kinds=LEAVES), name='any_flat'),
              Harness(anything, dict(depth=2, width=2, kinds=('int', 'str')), dict(depth=2, width=2, kinds=LEAVES), name='any_deep')]
HARNESSES += [Harness(others, dict(which=w), name='other_' + w) for w in REST]
