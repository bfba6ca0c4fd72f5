"""C25: annotated constraints hold wherever the annotated type is used."""
import collections
import dataclasses
import typing
from typing import Annotated, Dict, List, NamedTuple, Optional, Tuple, TypedDict

import marsh
from marsh.annotation import Annotation, Negative, Populated, Positive, PreAnnotation, Unsigned
from symx.base import Harness
from harness import ref as F
from harness import types_pool as T
from harness import postponed as PP

I, S = T.INT, T.STR
POS, NEG, UNS, POP = T.POSITIVE, T.NEGATIVE, T.UNSIGNED, T.POPULATED


class AddOne(Annotation):
    def __call__(self, value):
        return value + 1


class Times(Annotation):
    def __init__(self, k):
        self.k = k

    def __call__(self, value):
        return value * self.k


class Wrap(PreAnnotation):
    def __call__(self, element):
        return [element]


class First(PreAnnotation):
    def __call__(self, element):
        return element[0]


class Odd(Annotation):
    def __call__(self, value):
        if value % 2 == 0:
            raise marsh.errors.UnmarshalError('even')
        return value


class Below(Annotation):
    def __init__(self, n):
        self.n = n

    def __call__(self, value):
        if value >= self.n:
            raise RuntimeError('too large')
        return value


class Given(Annotation):
    def __call__(self, value):
        if value is None:
            raise ValueError('required')
        return value


class Told(Annotation):
    """Every value, also those which are empty or false, becomes one that tells."""
    def __call__(self, value):
        return ['told', value]


class Blank(PreAnnotation):
    """What is empty or false is read as nothing."""
    def __call__(self, element):
        return None if not element else element


@dataclasses.dataclass
class Plain:
    n: int = 0


@dataclasses.dataclass
class Data:
    n: Annotated[int, Positive]
    s: Annotated[List[int], Populated] = dataclasses.field(default_factory=lambda: [1])


class Tup(NamedTuple):
    n: Annotated[int, Positive]
    m: Annotated[float, Negative] = -1.0


class Dct(TypedDict):
    n: Annotated[int, Unsigned]


class Lax(TypedDict, total=False):
    n: Annotated[int, Positive]
    m: Annotated[int, Unsigned]


class Cls:
    def __init__(self, n: Annotated[int, Positive], m: Annotated[int, Unsigned()] = 0):
        self.n, self.m = n, m

    def shown(self):
        return [self.n, self.m]


def fn(n: Annotated[int, Positive], *rest: Annotated[int, Unsigned], k: Annotated[int, Positive] = 1,
       **kw: Annotated[int, Unsigned]):
    return [n, list(rest), k, list(kw.items())]


def lax(total):
    return F.Rec(total, [('n', POS, lambda: T.ABSENT), ('m', UNS, lambda: T.ABSENT)], T.PART.build)


def only(good):
    """A step that refuses everything else."""
    def step(v):
        if not good(v):
            raise F.Refused()
        return v
    return step


def told(v):
    return ['told', v]


SPOTS = {
    'mixed': F.Ann(I, AddOne(), Positive, Times(-1), Negative, 'note',
                   post=(lambda v: v + 1, only(lambda v: v > 0), lambda v: v * -1, only(lambda v: v < 0))),
    'then': F.Ann(I, Positive, Times(-1), Negative(), AddOne, Below(0),
                  post=(only(lambda v: v > 0), lambda v: v * -1, only(lambda v: v < 0), lambda v: v + 1, only(lambda v: v < 0))),
    'repeated': F.Ann(F.Seq(F.Ann(I, AddOne, AddOne, post=(lambda v: v + 1, lambda v: v + 1))), Populated, bad=(lambda v: len(v) == 0,)),
    'given': F.Ann(F.Opt(I), Given, post=(only(lambda v: v is not None),)),
    'told_optional': F.Ann(F.Opt(I), Told, post=(told,)),
    'told_bool': F.Ann(T.BOOL, Told(), post=(told,)),
    'told_str': F.Ann(S, Told, post=(told,)),
    'told_union': F.Ann(F.Un(I, F.Seq(I)), Told, post=(told,)),
    'told_none': F.Ann(F.NoneT(), Told, post=(told,)),
    'told_data': F.Ann(T.rec(Plain, ('n', I, lambda: 0)), Told(), post=(told,)),
    'told_color': F.Ann(T.COLOR, Told, post=(told,)),
    'blank': F.Ann(F.Opt(F.Seq(I)), Blank, pre=(lambda e: None if not e else e,)),
    'in_told': F.Seq(F.Ann(F.Opt(I), Told, post=(told,))),
    'positive': POS, 'negative': NEG, 'unsigned': UNS, 'populated': POP,
    'positive_float': F.Ann(T.FLOAT, Positive(), bad=(lambda v: v <= 0,)),
    'populated_map': F.Ann(F.Map(S, I), Populated, bad=(lambda v: len(v) == 0,)),
    'populated_str': F.Ann(S, Populated(), bad=(lambda v: len(v) == 0,)),
    'two': F.Ann(I, Unsigned, Below(10), bad=(lambda v: v < 0, lambda v: v >= 10)),
    'note': F.Ann(I, 'a note', Positive, 3, bad=(lambda v: v <= 0,)),
    'order': F.Ann(I, AddOne, Times(3), post=(lambda v: v + 1, lambda v: v * 3)),
    'order2': F.Ann(I, Times(3), AddOne(), post=(lambda v: v * 3, lambda v: v + 1)),
    'pre': F.Ann(F.Seq(I), Wrap, pre=(lambda e: [e],)),
    'pre_post': F.Ann(F.Seq(I), Populated, Wrap(), First, pre=(lambda e: [e], lambda e: e[0]),
                      bad=(lambda v: len(v) == 0,)),
    'odd': F.Ann(I, Odd, bad=(lambda v: v % 2 == 0,)),
    'nested': F.Ann(F.Ann(I, Positive, bad=(lambda v: v <= 0,)), Below(10), bad=(lambda v: v >= 10,)),
    'in_seq': F.Seq(POS), 'in_tuple': F.fixed(POS, UNS), 'in_map': F.Map(S, POS),
    'in_key': F.Map(POS, S, t=Dict[POS.t, str]),
    'in_optional': F.Opt(POS), 'in_union': F.Un(POS, UNS, S), 'in_vartuple': F.Seq(UNS, Tuple[UNS.t, ...], tuple),
    'deep': F.Map(S, F.Seq(F.Opt(POS))),
    'dataclass': T.rec(Data, ('n', POS), ('s', POP, lambda: [1])),
    'namedtuple': T.rec(Tup, ('n', POS), ('m', NEG, lambda: -1.0)),
    'typeddict': F.Rec(Dct, [('n', UNS, F.NODEF)], lambda v: dict(v)),
    'partial': lax(Lax),
    'class': T.rec(Cls, ('n', POS), ('m', UNS, lambda: 0)),
    'function': F.Sig(fn, ('pos', 'n', POS, F.NODEF), ('args', 'rest', UNS, None), ('kw', 'k', POS, 1),
                      ('kwargs', 'kw', UNS, None)),
    'postponed_dataclass': T.rec(PP.Data, ('n', POS), ('s', POP, lambda: [1])),
    'postponed_namedtuple': T.rec(PP.Tup, ('n', POS), ('m', NEG, lambda: -1.0)),
    'postponed_typeddict': F.Rec(PP.Dct, [('n', UNS, F.NODEF)], lambda v: dict(v)),
    'postponed_partial': lax(PP.Lax),
    'postponed_class': T.rec(PP.Cls, ('n', POS), ('m', UNS, lambda: 0)),
    'postponed_function': F.Sig(PP.fn, ('pos', 'n', POS, F.NODEF), ('args', 'rest', UNS, None), ('kw', 'k', POS, 1),
                                ('kwargs', 'kw', UNS, None)),
}


def enforced(g, which, **cfg):
    d = SPOTS[which]
    F.agree(g, d, d.gen(g, 'e', cfg))


CFG = dict(leaf='all', width=1, faults=1)
SMALL = ('populated_str', 'in_union')
HARNESSES = [Harness(enforced, dict(CFG, which=w, **({'small': True} if w in SMALL else {})),
                     dict(CFG, which=w, faults=2, width=2, strmax=4, **({'small': True} if w in SMALL else {})),
                     name=w) for w in SPOTS]
