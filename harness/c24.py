"""C24: marshaling any value gives a plain element with the value's contents."""
import base64
import collections
import copy
import dataclasses
import datetime
import enum
import logging
import types
from typing import Any, ClassVar, NamedTuple

import marsh
from symx.base import Harness
from harness import elements as R
from harness.c18 import Level, Swap, Word
from harness.types_pool import Color


class Whole(int):
    def __str__(self):
        return 'whole'


class Number(int):
    pass


class Word2(str):
    pass


class Amount(float):
    pass


class Text(str):
    def __str__(self):
        return 'text'


class Real(float):
    def __str__(self):
        return 'real'


@dataclasses.dataclass
class Two:
    x: Any
    name: Any


@dataclasses.dataclass
class Hidden:
    x: Any
    y: Any = dataclasses.field(init=False, default=5)

    def __post_init__(self):
        self.y = self.x


@dataclasses.dataclass
class Frozen(Two):
    z: Any = ()


@dataclasses.dataclass(order=True)
class Marked:
    k: Any = dataclasses.field(kw_only=True)
    x: Any = dataclasses.field(repr=False)
    y: Any = dataclasses.field(compare=False, metadata={'init': False})
    z: ClassVar[Any] = 1


class Named(NamedTuple):
    x: Any
    y: Any = None


class Items:
    """A sequence by protocol only."""

    def __init__(self, items):
        self.items = items

    def __len__(self):
        return len(self.items)

    def __getitem__(self, index):
        return self.items[index]

    def __contains__(self, item):
        return item in self.items


class Once:
    """Iterable only."""

    def __init__(self, items):
        self.items = items

    def __iter__(self):
        return iter(list(self.items))


class Opaque:
    """Cannot be marshaled."""

    def __init__(self, x=None):
        self.x = x


UNSUPPORTED = {'object': object(), 'opaque': Opaque(), 'type': int, 'function': len,
               'module': types, 'class': Two}


def same_element(g, got, want):
    """got is plain, and has the contents of want (tuples for sequences)."""
    if isinstance(want, dict):
        g.check(type(got) is dict, 'plain')
        if type(got) is dict:
            g.check(len(got) == len(want), 'contents')
            for (k, v), (k2, v2) in zip(got.items(), want.items()):
                g.check(type(k) is str, 'keys')
                g.check(k == k2, 'contents')
                same_element(g, v, v2)
        return
    if isinstance(want, tuple):
        g.check(type(got) is tuple or type(got) is list, 'plain')
        if type(got) is tuple or type(got) is list:
            g.check(len(got) == len(want), 'contents')
            for v, v2 in zip(got, want):
                same_element(g, v, v2)
        return
    g.check(type(got) is type(want), 'plain')
    g.check(g.same(got, want), 'contents')


def judge(g, v, want):
    got = marsh.marshal(v)
    same_element(g, got, want)
    again = marsh.marshal(got)
    g.check(g.same(R.norm(again), R.norm(got)), 'idempotent')


# ------------------------------------------------------------------- values and their elements
LEAVES = ('int', 'str', 'bool', 'float', 'none', 'missing', 'enum', 'bytes', 'map', 'seq')


def leaf(g, name, kinds):
    """(value, element)"""
    k = g.choice(name + '.leaf', kinds)
    if k == 'int':
        x = g.int(name)
        return x, x
    if k == 'str':
        x = g.str(name, 3)
        return x, x
    if k == 'bool':
        x = g.bool(name)
        return x, x
    if k == 'float':
        x = g.float(name)
        return x, x
    if k == 'enum':
        m = g.choice(name, tuple(Swap))
        return m, m.name
    if k == 'bytes':
        b = g.bytes(name, 3)
        return b, base64.urlsafe_b64encode(b).decode('ascii')
    if k == 'missing':
        return marsh.MISSING, '???'
    return {'none': (None, None), 'map': ({}, {}), 'seq': ((), ())}[k]


def key(g, name, kinds, keymax):
    k = g.choice(name + '.kind', kinds)
    if k == 'str':
        x = g.str(name, keymax)
        return x, x
    if k == 'int':
        x = g.choice(name, (0, -1, 12, 10 ** 30))
        return x, str(x)
    if k == 'bool':
        x = g.choice(name, (True, False))
        return x, str(x)
    if k == 'float':
        x = g.choice(name, (0.5, -2.0, 1e30))
        return x, str(x)
    if k == 'bytes':
        b = g.bytes(name, 2)
        return b, base64.urlsafe_b64encode(b).decode('ascii')
    if k == 'enum':
        m = g.choice(name, tuple(Swap))
        return m, m.name
    if k == 'word':
        m = g.choice(name, tuple(Word))
        return m, m.value
    if k == 'level':
        m = g.choice(name, tuple(Level))
        return m, str(m.value)
    if k == 'text':
        return Text('abc'), 'abc'
    if k == 'whole':
        return Whole(5), '5'
    return {'none': (None, 'None'), 'date': (datetime.date(2000, 1, 2), '2000-01-02'),
            'tuple': ((1, 'a'), "(1, 'a')")}[k]


SEQS = {
    'list': list, 'tuple': tuple, 'deque': collections.deque, 'items': Items, 'once': Once,
    'generator': lambda v: (x for x in v), 'iter': iter, 'userlist': collections.UserList,
    'values': lambda v: dict(enumerate(v)).values(), 'reversed': lambda v: reversed(v[::-1]),
}
MAPS = {
    'dict': dict, 'ordered': collections.OrderedDict, 'proxy': lambda v: types.MappingProxyType(dict(v)),
    'default': lambda v: collections.defaultdict(int, v), 'userdict': collections.UserDict,
    'chain': lambda v: collections.ChainMap(dict(v)),
}


def value(g, name, depth, width, seqs, maps, leaves, keys, keymax, records):
    args = (width, seqs, maps, leaves, keys, keymax, records)
    if depth == 0:
        return leaf(g, name, leaves)
    k = g.choice(name + '.shape', ['leaf', *seqs, *maps, *records])
    if k == 'leaf':
        return leaf(g, name, leaves)
    if k in SEQS:
        pairs = [value(g, f'{name}.{i}', depth - 1, *args) for i in range(g.choice(name + '.len', tuple(range(width + 1))))]
        return SEQS[k]([p[0] for p in pairs]), tuple([p[1] for p in pairs])
    if k in MAPS:
        vals, want = [], []
        for i in range(g.choice(name + '.len', tuple(range(width + 1)))):
            a, b = key(g, f'{name}.k{i}', keys, keymax)
            for other, _ in want:
                g.assume(other != b)            # keys that are written the same collide
            for other, _ in vals:
                g.assume(other != a)
            v, w = value(g, f'{name}.{i}', depth - 1, *args)
            vals.append((a, v))
            want.append((b, w))
        return MAPS[k](vals), dict(want)
    (v, w), (v2, w2) = value(g, name + '.x', depth - 1, *args), value(g, name + '.y', depth - 1, *args)
    if k == 'two':
        return Two(v, v2), {'x': w, 'name': w2}
    if k == 'hidden':
        return Hidden(v), {'x': w}
    if k == 'marked':
        return Marked(v, v2, k=v), {'k': w, 'x': w, 'y': w2}
    if k == 'frozen':
        return Frozen(v, v2), {'x': w, 'name': w2, 'z': ()}
    if k == 'named':
        return Named(v, v2), {'x': w, 'y': w2}
    return {'any': v, 'all': v2}, {'any': w, 'all': w2}


def written(g, **cfg):
    v, want = value(g, 'v', **cfg)
    judge(g, v, want)


def untouched(g, depth, width, keymax, leaves):
    """The value is neither changed nor shared with the element."""
    v, _ = value(g, 'v', depth, width, ('list', 'deque'), ('dict', 'default'), leaves, ('str',), keymax, ('two',))
    before = copy.deepcopy(v)
    got = marsh.marshal(v)
    g.check(g.same(v, before), 'input unchanged')
    if isinstance(got, dict):
        got['another'] = 1
    elif isinstance(got, list):
        got.append(1)
    g.check(g.same(v, before), 'not shared')




def single(g, kind):
    if kind == 'int_enum':
        v = g.choice('v', tuple(Level))
        judge(g, v, v.value)
    elif kind == 'str_enum':
        v = g.choice('v', tuple(Word))
        judge(g, v, v.value)
    elif kind == 'enum':
        v = g.choice('v', tuple(Color) + tuple(Swap))
        judge(g, v, v.name)
    elif kind == 'int_sub':
        n = g.choice('n', (3, 0, -10 ** 30))
        judge(g, g.choice('v', (Whole, Number))(n), n)
    elif kind == 'str_sub':
        judge(g, g.choice('v', (Text, Word2))('abc'), 'abc')
    elif kind == 'float_sub':
        judge(g, g.choice('v', (Real, Amount))(2.5), 2.5)
    elif kind == 'bytes':
        b = g.bytes('b', 5)
        judge(g, b, base64.urlsafe_b64encode(b).decode('ascii'))
    elif kind == 'range':
        lo, n = g.choice('lo', (-2, 0, 3)), g.choice('n', (0, 1, 3))
        judge(g, range(lo, lo + n), tuple(range(lo, lo + n)))
    elif kind == 'set':
        v = g.choice('v', ((), ('a',), ('c', 'b', 'a'), (1, -1, 2), (b'x', 'y')))
        s = g.choice('type', (set, frozenset))(v)
        got = marsh.marshal(s)
        g.check(type(got) is tuple or type(got) is list, 'plain')
        g.check(sorted([str(x) for x in got]) == sorted([x if isinstance(x, str) else base64.urlsafe_b64encode(x).decode() if isinstance(x, bytes) else str(x) for x in v]), 'contents')
    elif kind == 'complex':
        v = complex(g.choice('re', (0.0, -1.5, 3.0, 1e-13)), g.choice('im', (0.0, 2.0, -0.5, 1e-13, -5e-324, 1e308)))
        judge(g, v, v.real if v.imag == 0 else {'real': v.real, 'imag': v.imag})
    elif kind == 'slice':
        b = [g.int(f'b{i}') if g.choice(f'g{i}', (False, True)) else None for i in range(3)]
        judge(g, slice(*b), {'start': b[0], 'stop': b[1], 'step': b[2]})
    elif kind == 'date':
        v = g.choice('v', (datetime.date(2020, 2, 29), datetime.datetime(2020, 1, 2, 3, 4, 5, 6),
                           datetime.time(1, 2, 3), datetime.datetime(1, 1, 1, tzinfo=datetime.timezone.utc)))
        judge(g, v, v.isoformat())
    elif kind == 'logger':
        level = g.choice('level', (0, 10, 20, 30, 40, 50, 7))
        log = logging.getLogger('verif.c24')
        log.setLevel(level)
        got = marsh.marshal(log)
        want = {0: None, 10: 'DEBUG', 20: 'INFO', 30: 'WARNING', 40: 'ERROR', 50: 'CRITICAL', 7: 7}[level]
        same_element(g, got, {'name': 'verif.c24'} if want is None else {'name': 'verif.c24', 'level': want})


def refused(g, depth):
    """A value without a marshal schema is refused wherever it is."""
    v = g.choice('v', tuple(UNSUPPORTED.values()))
    for i in range(g.choice('depth', tuple(range(depth + 1)))):
        k = g.choice(f'in{i}', ('list', 'dict', 'two', 'named', 'set', 'generator'))
        if k == 'list':
            v = [1, v]
        elif k == 'dict':
            v = {'a': 1, 'b': v}
        elif k == 'two':
            v = Two(1, v)
        elif k == 'named':
            v = Named(v)
        elif k == 'generator':
            v = (x for x in [v])
        else:
            try:
                v = {v}
            except TypeError:
                v = (v,)
    try:
        marsh.marshal(v)
        g.check(False, 'refused')
    except marsh.errors.MarshalError:
        g.check(True, 'refused')


KEYS = ('str', 'int', 'bool', 'float', 'bytes', 'enum', 'word', 'level', 'text', 'whole', 'none', 'date', 'tuple')
RECORDS = ('two', 'hidden', 'frozen', 'named', 'keywords', 'marked')
FLAT = dict(depth=1, width=2, seqs=tuple(SEQS), maps=tuple(MAPS), leaves=LEAVES, keys=('str',), keymax=2, records=RECORDS)
HARNESSES = [
    Harness(written, FLAT, dict(FLAT, width=2, keymax=4), name='kinds'),
    Harness(written, dict(FLAT, depth=1, seqs=(), maps=('dict', 'default'), records=(), leaves=('int',), keys=KEYS),
            dict(FLAT, depth=1, seqs=(), maps=('dict', 'default', 'chain'), records=(), leaves=('int', 'str'), keys=KEYS), name='keys'),
    Harness(written, dict(FLAT, depth=2, width=1, leaves=('int', 'missing'), seqs=('list', 'items', 'generator', 'values'),
                          maps=('dict', 'chain'), records=('two', 'named')),
            dict(FLAT, depth=2, width=1, leaves=('int', 'enum')), name='nested'),
    Harness(written, dict(FLAT, depth=2, width=2, leaves=('int',), seqs=('list',), maps=('dict',), records=()),
            dict(FLAT, depth=2, width=2, leaves=('int', 'missing'), seqs=('list', 'deque', 'generator'), maps=('dict', 'default'),
                 records=('two',)), name='wide'),
    Harness(written, dict(FLAT, depth=3, width=1, leaves=('int',), seqs=('deque',), maps=('dict',), records=('two',)),
            dict(FLAT, depth=3, width=1, leaves=('int',), seqs=('list', 'once', 'generator'), maps=('dict', 'default'), records=('two',)), name='deep'),
    Harness(untouched, dict(depth=2, width=1, keymax=2, leaves=('int', 'none')), dict(depth=2, width=2, keymax=2, leaves=('int', 'none'))),
    Harness(refused, dict(depth=2), dict(depth=3)),
]
HARNESSES += [Harness(single, dict(kind=k), name=k) for k in
              ('int_enum', 'str_enum', 'enum', 'int_sub', 'str_sub', 'float_sub', 'bytes', 'range', 'set', 'complex',
               'slice', 'date', 'logger')]
