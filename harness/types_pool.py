"""Types used by the unmarshaling harnesses, paired with their reference reading."""
import collections
import dataclasses
import enum
from typing import Annotated, Any, Dict, List, NamedTuple, Optional, Sequence, Tuple, TypedDict

import marsh
from harness.ref import (
    NODEF, Ann, AnyT, Sig, En, Lit, Map, NoneT, Opt, Prim, Rec, Refused, Seq, Thunk, Un, fixed,
)

INT, STR, BOOL, FLOAT, NONE, ANY = Prim(int), Prim(str), Prim(bool), Prim(float), NoneT(), AnyT()


@dataclasses.dataclass
class Point:
    x: int
    y: str


@dataclasses.dataclass
class Sized:
    n: int = 7
    items: List[int] = dataclasses.field(default_factory=lambda: [1])
    m: Optional[int] = None


@dataclasses.dataclass
class Keyed:
    a: int
    b: int = dataclasses.field(default=5, kw_only=True)
    c: int = 6


@dataclasses.dataclass
class Given:
    first: dataclasses.InitVar[int]
    second: str
    third: int = dataclasses.field(init=False, default=0)

    def __post_init__(self, first):
        self.third = first


@dataclasses.dataclass
class Outer:
    p: Point
    q: List[int]


@dataclasses.dataclass
class Node:
    v: int
    rest: Optional['Node'] = None


class Pair(NamedTuple):
    a: int
    b: str = 'z'


class Full(TypedDict):
    a: int
    b: str


class Part(TypedDict, total=False):
    a: int
    b: str


class Plain:
    def __init__(self, a: int, b: str = 'z'):
        self.a = a
        self.b = b

    def shown(self):
        return [self.a, self.b]


class Star:
    """Built by Sig: equal to the list of its arguments as the reference gives it."""

    def __init__(self, a: int, *rest: int, k: int = 4):
        self.a, self.rest, self.k = a, rest, k


def plain(a: int, b: str = 'z'):
    return [a, b]


def star(a: int, b: int = 3, *rest: int, k: int = 4):
    return [a, b, list(rest), k]


def slash(a: int, b: int = 2, /, c: int = 3, *, k: int):
    return [a, b, c, k]


def every(a: int, /, b: int, *rest: int, k: int = 5, **kw: int):
    return [a, b, list(rest), k, list(kw.items())]


def open_(a: int, **kw: int):
    return [a, list(kw.items())]


class Color(enum.Enum):
    red = 1
    blue = 'b'
    b = 2.5


def rec(cls, *fields):
    return Rec(cls, [f if len(f) == 3 else f + (NODEF,) for f in fields], lambda v: cls(**v))


POINT = rec(Point, ('x', INT), ('y', STR))
SIZED = rec(Sized, ('n', INT, lambda: 7), ('items', Seq(INT), lambda: [1]), ('m', Opt(INT), lambda: None))
KEYED = rec(Keyed, ('a', INT), ('b', INT, lambda: 5), ('c', INT, lambda: 6))
GIVEN = rec(Given, ('first', INT), ('second', STR))
OUTER = rec(Outer, ('p', POINT), ('q', Seq(INT)))
NODE = rec(Node, ('v', INT), ('rest', Opt(Thunk(Node, lambda: NODE)), lambda: None))
PAIR = rec(Pair, ('a', INT), ('b', STR, lambda: 'z'))
FULL = Rec(Full, [('a', INT, NODEF), ('b', STR, NODEF)], lambda v: dict(v))
ABSENT = object()
PART = Rec(Part, [('a', INT, lambda: ABSENT), ('b', STR, lambda: ABSENT)],
           lambda v: dict([(k, x) for k, x in v.items() if x is not ABSENT]))
PLAIN = rec(Plain, ('a', INT), ('b', STR, lambda: 'z'))
COLOR = En(Color)
SIGS = {
    'plain': Sig(plain, ('pos', 'a', INT, NODEF), ('pos', 'b', STR, 'z')),
    'star': Sig(star, ('pos', 'a', INT, NODEF), ('pos', 'b', INT, 3), ('args', 'rest', INT, None),
                ('kw', 'k', INT, 4)),
    'slash': Sig(slash, ('only', 'a', INT, NODEF), ('only', 'b', INT, 2), ('pos', 'c', INT, 3),
                 ('kw', 'k', INT, NODEF)),
    'every': Sig(every, ('only', 'a', INT, NODEF), ('pos', 'b', INT, NODEF), ('args', 'rest', INT, None),
                 ('kw', 'k', INT, 5), ('kwargs', 'kw', INT, None)),
    'open': Sig(open_, ('pos', 'a', INT, NODEF), ('kwargs', 'kw', INT, None)),
}

POSITIVE = Ann(INT, marsh.annotation.Positive, bad=(lambda v: v <= 0,))
NEGATIVE = Ann(FLOAT, marsh.annotation.Negative(), bad=(lambda v: v >= 0,))
UNSIGNED = Ann(INT, marsh.annotation.Unsigned, bad=(lambda v: v < 0,))
POPULATED = Ann(Seq(INT), marsh.annotation.Populated, bad=(lambda v: len(v) == 0,))
