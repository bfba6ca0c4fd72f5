"""C26: where no value is given, the default is the value; where one is given, it is not."""
import collections
import dataclasses
import datetime
import typing
from typing import Dict, List, Literal, NamedTuple, Optional, Tuple, TypedDict

import marsh
from symx.base import Harness
from harness import ref as F
from harness import types_pool as T
from harness import c21

TYPES = dict([(k, t) for k, t in c21.TYPES.items() if k not in ('frozenset', 'iterable')],
             sized=collections.abc.Sized, literal_none=Literal[None, 'x'])
ABSENT = (marsh.MISSING, '???', dataclasses.MISSING)


def value(g, name='v'):
    """Any default whatsoever, of the right type or not."""
    k = g.choice(name + '.kind', ('int', 'none', 'str', 'bool', 'float', 'list', 'dict', 'tuple', 'object'))
    if k == 'int':
        return g.int(name)
    if k == 'str':
        s = g.str(name, 4, alphabet='ascii')
        g.assume(s != '???')
        return s
    if k == 'bool':
        return g.bool(name)
    if k == 'float':
        return g.float(name)
    return {'none': None, 'list': [], 'dict': {}, 'tuple': (), 'object': Marker('o')}[k]


@dataclasses.dataclass
class Marker:
    s: str


def used(g, which):
    """The very default object comes out of a schema without an element."""
    v = value(g)
    schema = marsh.schema.UnmarshalSchema(TYPES[which], default=v)
    e = g.choice('missing', ABSENT)
    if which in ('annotated', 'populated', 'positive_any'):
        # constraints apply to defaults too
        plain = marsh.schema.UnmarshalSchema(typing.get_args(TYPES[which])[0], default=v)
        g.check(g.same(F.view(plain.unmarshal(e)), F.view(v)), 'default')
        try:
            if which == 'populated':
                fits = len(v) > 0
            else:
                fits = g.Not(v <= 0)
        except (TypeError, AttributeError):
            fits = False
        try:
            got = schema.unmarshal(e)
        except marsh.errors.UnmarshalError:
            g.check(g.Not(fits), 'a default that meets the constraint is refused')
            return
        g.check(fits, 'a default that does not meet the constraint is used')
        g.check(g.same(F.view(got), F.view(v)), 'default')
        return
    got = schema.unmarshal(e)
    g.check(type(got) is type(v), 'type')
    g.check(g.same(F.view(got), F.view(v)), 'default')
    if isinstance(v, (list, dict, Marker)):
        g.check(got is v, 'same object')


def made(g, which):
    """A default factory is called once per use."""
    calls = []

    def factory():
        calls.append(len(calls))
        return [len(calls)]

    schema = marsh.schema.UnmarshalSchema(TYPES[which], default_factory=factory)
    g.check(not calls, 'not called before use')
    n = g.choice('n', (1, 2, 3))
    for i in range(n):
        e = g.choice(f'missing{i}', ABSENT)
        got = schema.unmarshal(e)
        g.check(len(calls) == i + 1, 'called once')
        g.check(got == [i + 1], 'value')


GIVEN = {
    'int': T.INT, 'str': T.STR, 'bool': T.BOOL, 'float': T.FLOAT, 'none': T.NONE, 'any': T.ANY,
    'seq': F.Seq(T.INT), 'map': F.Map(T.STR, T.INT), 'opt': F.Opt(T.INT), 'union': F.Un(T.BOOL, F.Seq(T.INT)),
    'literal': F.Lit('a', 2), 'enum': T.COLOR, 'point': T.POINT, 'pair': T.PAIR, 'full': T.FULL,
    'part': T.PART, 'fixed': F.fixed(T.INT, T.STR), 'positive': T.POSITIVE,
}


class Sentinel:
    pass


def overridden(g, which, **cfg):
    """A given element is read as if there were no default; '???' inside is still missing."""
    d = GIVEN[which]
    e = d.gen(g, 'e', cfg)
    g.assume(not (e is marsh.MISSING))
    if isinstance(e, str):
        g.assume(e != '???')
    want = F.expect(d, e)
    factory = g.choice('factory', (False, True))
    s = Sentinel()
    schema = marsh.schema.UnmarshalSchema(d.t, **(dict(default_factory=Sentinel) if factory else dict(default=s)))
    try:
        got = 'ok', schema.unmarshal(e)
    except marsh.errors.MarshError as err:
        got = 'no', err
    g.check(got[0] == want[0], 'as without default')
    if got[0] == 'ok':
        g.check(g.same(F.view(got[1]), F.view(want[1])), 'value')


@dataclasses.dataclass
class Deep:
    a: int = 1
    b: Optional[T.Point] = None
    c: List[int] = dataclasses.field(default_factory=lambda: [7])
    d: typing.Any = None
    e: T.Color = T.Color.red
    f: Dict[str, int] = dataclasses.field(default_factory=dict)
    g: Tuple[int, str] = (1, 'x')
    h: T.Pair = T.Pair(3)
    i: bool = False
    j: datetime.date = datetime.date(2000, 1, 2)
    k: slice = slice(1, 2)
    m: bytes = b'xyz'
    n: complex = 2j


class DeepTuple(NamedTuple):
    a: int = 1
    b: Optional[T.Point] = None
    d: typing.Any = None
    e: T.Color = T.Color.red
    i: bool = False


class DeepClass:
    def __init__(self, a: int = 1, b: Optional[T.Point] = None, d: typing.Any = None,
                 e: T.Color = T.Color.red, i: bool = False):
        self.v = (a, b, d, e, i)


def deep_fn(a: int = 1, b: Optional[T.Point] = None, *, d: typing.Any = None, e: T.Color = T.Color.red,
            i: bool = False):
    return (a, b, d, e, i)


def fields(g, which):
    """Fields left out, or marked missing, take their declared default; the others are as given."""
    v = g.int('v')
    names = {'dataclass': [f.name for f in dataclasses.fields(Deep)]}.get(which, ('a', 'b', 'd', 'e', 'i'))
    name = g.choice('name', tuple(names))
    k = g.choice('kind', ('left out', 'missing', 'sentinel', 'next to a'))
    e = {}
    if k == 'missing':
        e[name] = '???'
    elif k == 'sentinel':
        e[name] = marsh.MISSING
    elif k == 'next to a' and name != 'a':
        e['a'] = v
    if which == 'dataclass':
        got = marsh.unmarshal(Deep, e)
        want = Deep(**({'a': v} if 'a' in e and name != 'a' else {}))
        for f in names:
            g.check(g.same(F.view(getattr(got, f)), F.view(getattr(want, f))), f)
        g.check(got.c is not want.c, 'fresh')
        return
    a = v if 'a' in e and name != 'a' else 1
    want = (a, None, None, T.Color.red, False)
    if which == 'namedtuple':
        got = tuple(marsh.unmarshal(DeepTuple, e))
    elif which == 'class':
        got = marsh.unmarshal(DeepClass, e).v
    else:
        args = marsh.unmarshal_args(deep_fn, e)
        got = deep_fn(*args.args, **args.kwargs)
    g.check(g.same(got, want), 'defaults')


def bare(g):
    """Without a default: containers are empty, None and optionals are None, the rest is an error."""
    cases = {
        'int': (int, None), 'str': (str, None), 'list': (List[int], ([],)), 'dict': (Dict[str, int], ({},)),
        'opt': (Optional[int], (None,)), 'none': (None, (None,)), 'any': (typing.Any, None),
        'enum': (T.Color, None), 'literal': (Literal['a', 'b'], None), 'bytes': (bytes, None),
        'complex': (complex, None), 'tuple': (Tuple[int, ...], ((),)), 'set': (typing.Set[int], (set(),)),
        'point': (T.Point, None), 'sized': (T.Sized, (T.Sized(),)), 'pair': (T.Pair, None),
        'part': (T.Part, ({},)), 'full': (T.Full, None), 'fixed': (Tuple[int], None),
        'union': (typing.Union[int, str], None), 'slice': (slice, (slice(None),)),
        'union_none': (typing.Union[int, str, None], (None,)),
        'opt_list': (Optional[List[int]], ([],)), 'opt_point': (Optional[T.Point], (None,)),
        'bool': (bool, None), 'float': (float, None), 'date': (datetime.date, None),
    }
    t, want = cases[g.choice('type', tuple(cases))]
    got = F.run(t, g.choice('missing', ABSENT))
    g.check((got[0] == 'ok') == (want is not None), 'accepted')
    if want is not None and got[0] == 'ok':
        g.check(type(got[1]) is type(want[0]), 'type')
        g.check(got[1] == want[0], 'value')


CFG = dict(leaf='all', width=1, faults=1)
HARNESSES = [Harness(used, dict(which=w), name='used_' + w) for w in TYPES]
HARNESSES += [Harness(made, dict(which=w), name='made_' + w) for w in TYPES
              if w not in ('annotated', 'populated', 'positive_any')]
HARNESSES += [Harness(overridden, dict(CFG, which=w), dict(CFG, which=w, faults=2, width=2), name='overridden_' + w)
              for w in GIVEN]
HARNESSES += [Harness(fields, dict(which=w), name='fields_' + w) for w in ('dataclass', 'namedtuple', 'class', 'function')]
HARNESSES.append(Harness(bare))
