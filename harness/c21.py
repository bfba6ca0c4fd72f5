"""C21: whatever the element, unmarshaling gives a value or a marsh error."""
import collections
import collections.abc
import datetime
import logging
import numbers
import typing
from typing import DefaultDict, Dict, FrozenSet, List, Literal, Mapping, Set, Tuple, TypeVar

import marsh
from symx.base import Harness
from harness import elements as R
from harness import ref as F
from harness import types_pool as T

TV = TypeVar('TV', int, bool)
BV = TypeVar('BV', bound=List[int])


class Raw:
    def __init__(self, a, b=None):
        self.a = a


TYPES = {
    'int': int, 'float': float, 'bool': bool, 'str': str, 'bytes': bytes, 'complex': complex,
    'none': None, 'any': typing.Any, 'slice': slice, 'logger': logging.Logger,
    'date': datetime.date, 'time': datetime.time, 'datetime': datetime.datetime,
    'list': list, 'dict': dict, 'tuple': tuple, 'set': set, 'bare_list': List, 'bare_dict': Dict,
    'seq': typing.Sequence[int], 'mutseq': typing.MutableSequence[str], 'deque': typing.Deque[int],
    'set_int': Set[int], 'set_list': Set[List[int]], 'frozenset': FrozenSet[int],
    'tuple_any': Tuple[int, ...], 'tuple_none': Tuple[()], 'tuple2': Tuple[int, str],
    'map': Mapping[str, int], 'mutmap': typing.MutableMapping[str, int],
    'dict_int': Dict[int, bool], 'ordered': typing.OrderedDict[str, int],
    'dict_enum': Dict[T.Color, int], 'dict_bytes': Dict[bytes, slice],
    'counter': typing.Counter[str], 'defaultdict': DefaultDict[str, int],
    'literal': Literal['a', 1, True, None], 'enum': T.Color,
    'optional': typing.Optional[int], 'union': typing.Union[int, List[str], None],
    'pipe': int | list[str], 'typevar': TV, 'boundvar': BV,
    'supports_int': typing.SupportsInt, 'supports_abs': typing.SupportsAbs,
    'number': numbers.Complex, 'iterable': typing.Iterable[int],
    'annotated': T.POSITIVE.t, 'populated': typing.Annotated[typing.Any, marsh.annotation.Populated],
    'positive_any': typing.Annotated[typing.Any, marsh.annotation.Positive],
    'point': T.Point, 'given': T.Given, 'outer': T.Outer, 'node': T.Node, 'pair': T.Pair,
    'full': T.Full, 'part': T.Part, 'plain': T.Plain, 'star': T.Star, 'raw': Raw,
    'nested': Dict[str, List[typing.Optional[T.Point]]],
}


def element(g, name, depth, width, cfg):
    kinds = ('int', 'float', 'bool', 'str', 'none', 'missing', 'sentinel')
    if depth:
        kinds = kinds + ('seq', 'map')
    k = g.choice(name + '.kind', kinds)
    if k == 'seq':
        n = g.choice(name + '.len', tuple(range(width + 1)))
        items = [element(g, f'{name}.{i}', depth - 1, width, cfg) for i in range(n)]
        return items
    if k == 'map':
        n = g.choice(name + '.len', tuple(range(width + 1)))
        out = []
        for i in range(n):
            key = g.choice(f'{name}.known{i}', cfg['keys'])
            if key is None:
                key = g.str(f'{name}.key{i}', cfg['keymax'], alphabet='ascii')
            for o, _ in out:
                g.assume(g.Not(key == o))
            out.append((key, element(g, f'{name}.{i}', depth - 1, width, cfg)))
        return dict(out)
    if k == 'int':
        return g.choice(name, (0, 1, -1, 2, 10 ** 400, -10 ** 18))
    if k == 'float':
        return g.choice(name, (0.0, 1.0, 1.5, -1e300, float('nan'), float('inf')))
    if k == 'bool':
        return g.bool(name)
    if k == 'str':
        if cfg['words'] and (cfg['strmax'] is None or g.choice(name + '.word', (False, True))):
            return g.choice(name, cfg['words'])
        return g.str(name, cfg['strmax'], alphabet='ascii')
    return {'none': None, 'missing': '???', 'sentinel': marsh.MISSING}[k]


KEYS = {
    'point': ('x', 'y'), 'given': ('first', 'second'), 'outer': ('p', 'x'), 'node': ('v', 'rest'),
    'pair': ('a', 'b'), 'full': ('a', 'b'), 'part': ('a', 'b'), 'plain': ('a', 'b'), 'star': ('a', 'k', 'rest'),
    'raw': ('a', 'b'), 'complex': ('real', 'imag'), 'slice': ('start', 'stop'), 'number': ('real', 'imag'),
    'logger': ('name', 'level'), 'nested': ('x', 'y'), 'dict_int': ('1',), 'dict_enum': ('red',),
    'date': ('year', 'tzinfo'), 'time': ('hour',), 'datetime': ('year', 'month', 'day'),
}
WORDS = {
    'dict_enum': ('red',), 'enum': ('red', 'blue'), 'bytes': ('AA==', 'A', '!!!!'), 'slice': ('1:2', ':', '1:2:3:4'),
    'supports_int': ('12', '1.5'),
    # text ends up in native code: from a list
    'complex': ('', '1', '1.5', 'nan', 'x', '1+2j', '1e999'), 'number': ('', '2', '-inf', '1j', 'x'),
    'supports_abs': ('', '1', 'x'), 'logger': ('', 'a', 'a.b', 'root', 'INFO', '10', 'LOUD', ' '),
}
TEXTLESS = ('date', 'time', 'datetime')


def confined(g, which, depth, width, keymax, strmax):
    strmax = None if which in ('complex', 'number', 'supports_abs', 'logger') else strmax
    cfg = dict(keymax=keymax, strmax=strmax, keys=KEYS.get(which, ()) + (None,), words=WORDS.get(which, ()))
    e = element(g, 'e', depth, width, cfg)
    if which in TEXTLESS:
        g.assume(not isinstance(e, str))
    got = F.run(TYPES[which], e)
    g.cover(got[0])
    if got[0] == 'no':
        err = got[1]
        g.check(isinstance(err, marsh.errors.UnmarshalError), 'unmarshal error')
        marsh.path.split(err.path)


def reported(g, which):
    """The error can be shown."""
    cfg = dict(keymax=0, strmax=0, keys=KEYS.get(which, ()) + ('', 'a.b', '1'), words=('x', '', "it's"))
    e = element(g, 'e', 1, 1, cfg)
    if which in TEXTLESS:
        g.assume(not isinstance(e, str))
    got = F.run(TYPES[which], e)
    if got[0] == 'no':
        err = got[1]
        g.check(isinstance(str(err), str), 'str')
        g.check(isinstance(repr(err), str), 'repr')
        g.check(isinstance(err.pretty(element=True), str), 'pretty')


def reset():
    logging.getLogger().setLevel(logging.WARNING)


HARNESSES = [Harness(confined, dict(which=w, depth=2 if w in ('outer', 'node', 'nested') else 1, width=1, keymax=2, strmax=2),
                     dict(which=w, depth=2, width=2 if w not in ('outer', 'node', 'nested') else 1, keymax=2, strmax=3),
                     name=w) for w in TYPES]
HARNESSES += [Harness(reported, dict(which=w), name='reported_' + w) for w in TYPES]
