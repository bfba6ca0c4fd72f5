"""C45: type variables and protocols stand for exactly the types they admit."""
import collections.abc
import dataclasses
import typing
from typing import (
    Dict, Generic, List, NamedTuple, Optional, Protocol, SupportsAbs, SupportsBytes, SupportsComplex, SupportsFloat,
    SupportsIndex, SupportsInt, SupportsRound, Tuple, TypeVar, Union, runtime_checkable)

import marsh
from symx.base import Harness
from harness import elements as R
from harness import ref as F
from harness import types_pool as T

# ------------------------------------------------------------------------------ type variables
BOUNDS = {
    'int': T.INT, 'str': T.STR, 'bool': T.BOOL, 'float': T.FLOAT, 'seq': F.Seq(T.INT), 'map': F.Map(T.STR, T.INT),
    'opt': F.Opt(T.INT), 'union': F.Un(T.BOOL, F.Seq(T.INT)), 'literal': F.Lit('a', 2), 'enum': T.COLOR,
    'point': T.POINT, 'pair': T.PAIR, 'full': T.FULL, 'fixed': F.fixed(T.INT, T.STR), 'positive': T.POSITIVE,
}
CHOICES = {
    'int_str': (T.INT, T.STR), 'str_int': (T.STR, T.INT), 'float_bool': (T.FLOAT, T.BOOL), 'bool_int_str': (T.BOOL, T.INT, T.STR),
    'seqs': (F.Seq(T.INT), F.Seq(T.STR)), 'map_seq': (F.Map(T.STR, T.INT), F.Seq(T.STR)), 'point_pair': (T.POINT, T.PAIR),
    'lits': (F.Lit('a', 'b'), T.INT), 'nones': (T.INT, T.NONE),
}
VARIABLES = {k: TypeVar('V_' + k, bound=d.t) for k, d in BOUNDS.items()}
VARIABLES.update({k: TypeVar('V_' + k, *[d.t for d in ds]) for k, ds in CHOICES.items()})
STANDS = dict(BOUNDS)
STANDS.update({k: F.Un(*ds) for k, ds in CHOICES.items()})
Free = TypeVar('Free')
Chained = TypeVar('Chained', bound=List[VARIABLES['int_str']])
STANDS['chained'] = F.Seq(STANDS['int_str'])
VARIABLES['chained'] = Chained


def with_type(d, t):
    """The same rules for another spelling of the type."""
    class Spelled:
        ref, gen = d.ref, d.gen
    out = Spelled()
    out.t = t
    return out


def variable(g, which, places, **cfg):
    """A type variable is its bound, or the union of its types, wherever it is used."""
    d, v = STANDS[which], VARIABLES[which]
    place = g.choice('place', places)
    e = d.gen(g, 'e', cfg)
    want = F.expect(d, e)
    if place == 'plain':
        F.agree(g, with_type(d, v), e)
        return
    if place == 'default':
        s = 12345 if which == 'positive' else object()
        schema = marsh.schema.UnmarshalSchema(v, default=s)
        missing = e is marsh.MISSING or isinstance(e, str) and e == '???'
        try:
            got = schema.unmarshal(e)
        except marsh.errors.MarshError as err:
            g.check(want[0] == 'no' and not missing, 'refused')
            return
        if missing:
            g.check(got is s, 'default')
            return
        g.check(want[0] == 'ok', 'accepted')
        if want[0] == 'ok':
            g.check(g.same(F.view(got), F.view(want[1])), 'value')
        return
    if place == 'list':
        got = F.run(List[v], [e])
        take = lambda x: x[0]
    elif place == 'dict':
        got = F.run(Dict[str, v], {'k': e})
        take = lambda x: x['k']
    elif place == 'optional':
        got = F.run(Union[List[v], None], [e])
        take = lambda x: x[0]
    elif place == 'tuple':
        got = F.run(Tuple[int, v], [1, e])
        take = lambda x: x[1]
    elif place == 'field':
        cls = dataclasses.make_dataclass('Holder', [('f', v)], bases=(Generic[v],))
        got = F.run(cls, {'f': e})
        take = lambda x: x.f
    else:
        def fn(f: v):
            return f
        got = F.run(fn, {'f': e})
        take = lambda x: x
    g.check(got[0] == want[0], 'accepted' if got[0] == 'ok' else 'refused')
    if got[0] == want[0] == 'ok':
        g.check(g.same(F.view(take(got[1])), F.view(want[1])), 'value')


def free(g, depth, width):
    """A type variable without bounds stands for no type in particular and is refused."""
    e = g.tree('e', depth, width, keymax=1, leaf=R.leaf(g))
    where = g.choice('where', (Free, List[Free], Dict[str, Free], Tuple[int, Free], Shape))
    e = {Free: e, List[Free]: [e], Dict[str, Free]: {'k': e}, Tuple[int, Free]: [1, e], Shape: {'f': e}}[where]
    got = F.run(where, e)
    g.check(got[0] == 'no' and isinstance(got[1], marsh.errors.UnmarshalError), 'accepted')


@dataclasses.dataclass
class Shape(Generic[Free]):
    f: Free


# ----------------------------------------------------------------------------------- protocols
@runtime_checkable
class Shouts(Protocol):
    def upper(self): ...


@runtime_checkable
class Keyed(Protocol):
    def keys(self): ...


@runtime_checkable
class Grows(Protocol):
    def append(self, x): ...


@runtime_checkable
class Long(Protocol):
    def __len__(self): ...


@runtime_checkable
class Bits(Protocol):
    def bit_length(self): ...


@runtime_checkable
class Both(Protocol):
    def __index__(self): ...

    def __round__(self): ...


@runtime_checkable
class Pops(Protocol):
    def popitem(self): ...


@runtime_checkable
class Conjugate(Protocol):
    def conjugate(self): ...


@runtime_checkable
class Counts(Protocol):
    def count(self, x): ...


@runtime_checkable
class Decodes(Protocol):
    def decode(self): ...


@runtime_checkable
class Formats(Protocol):
    def format(self): ...


@runtime_checkable
class Hashes(Protocol):
    def __hash__(self): ...


@runtime_checkable
class Backwards(Protocol):
    def __reversed__(self): ...


@runtime_checkable
class Whole(Long, Protocol):
    def upper(self): ...


@runtime_checkable
class Nobody(Protocol):
    def no_such_method(self): ...


class Unchecked(Protocol):
    def upper(self): ...


MUTABLE, FIXED = collections.abc.MutableMapping, collections.abc.Mapping
ROW, TUPLE = collections.abc.MutableSequence, collections.abc.Sequence
CLASSES = {float: float, int: int, bool: bool, bytes: bytes, MUTABLE: dict, FIXED: dict, ROW: list, TUPLE: tuple, str: str, complex: complex}
PROTOCOLS = {
    'abs': (SupportsAbs, (float, int, bool, complex)), 'bytes': (SupportsBytes, (bytes,)), 'complex': (SupportsComplex, (complex,)),
    'float': (SupportsFloat, (float, int, bool)), 'index': (SupportsIndex, (int, bool)), 'int': (SupportsInt, (float, int, bool)),
    'round': (SupportsRound, (float, int, bool)), 'shouts': (Shouts, (bytes, str)), 'keyed': (Keyed, (MUTABLE, FIXED)),
    'grows': (Grows, (ROW,)), 'long': (Long, (bytes, MUTABLE, FIXED, ROW, TUPLE, str)), 'bits': (Bits, (int, bool)),
    'both': (Both, (int, bool)), 'pops': (Pops, (MUTABLE,)), 'conjugate': (Conjugate, (float, int, bool, complex)),
    'counts': (Counts, (bytes, ROW, TUPLE, str)), 'decodes': (Decodes, (bytes,)), 'formats': (Formats, (str,)),
    'whole': (Whole, (bytes, str)),
}


def shaped(g, n, few):
    """Any element: numbers, text, containers."""
    kind = g.choice('kind', ('int', 'float', 'bool', 'str', 'none', 'list', 'map', 'parts', 'missing'))
    if kind == 'int':
        return g.choice('e', (0, 1, -12, 10 ** 20)) if few else g.int('e')
    if kind == 'float':
        return g.choice('e', (0.0, 1.0, -2.5, 1e300, float('inf'))) if few else g.float('e')
    if kind == 'bool':
        return g.bool('e')
    if kind == 'str':
        return g.str('e', n, alphabet='ascii')
    if kind == 'list':
        return [g.int('e0'), g.str('e1', 1, alphabet='ascii')]
    if kind == 'map':
        return {g.str('k', 1, alphabet='ascii'): g.int('e')}
    return {'none': None, 'parts': [1, 2.5], 'missing': marsh.MISSING}[kind]


def plain(v):
    if isinstance(v, complex):
        return [v.real, v.imag]
    return dict(v) if R.is_map(v) else v


def protocol(g, which, n, places):
    """The first of the documented classes that implements the protocol and accepts the element."""
    p, admitted = PROTOCOLS[which]
    e = shaped(g, n, any([t in (str, bytes, bool) for t in admitted]))
    place = g.choice('place', places)
    want = None
    for t in admitted:
        got = F.run(t, e)
        if got[0] == 'ok':
            want = (t, got[1])
            break
    missing = e is marsh.MISSING or isinstance(e, str) and e == '???'
    if place == 'default':
        s = object()
        try:
            got = 'ok', marsh.schema.UnmarshalSchema(p, default=s).unmarshal(e)
        except marsh.errors.MarshError as err:
            got = 'no', err
        if missing:
            g.check(got[0] == 'ok' and got[1] is s, 'default')
            return
    elif place == 'plain':
        got = F.run(p, e)
    elif place == 'list':
        got = F.run(List[p], [e])
        got = got if got[0] == 'no' else ('ok', got[1][0])
    elif place == 'field':
        got = F.run(dataclasses.make_dataclass('Holder', [('f', p)]), {'f': e})
        got = got if got[0] == 'no' else ('ok', got[1].f)
    else:
        if e is None:
            return
        got = F.run(Optional[p], e)
        if got[0] == 'ok' and got[1] is None:
            g.check(want is None, 'none')
            return
    g.check((got[0] == 'ok') == (want is not None), 'accepted' if got[0] == 'ok' else 'refused')
    if got[0] == 'ok' and want is not None:
        g.cover(want[0].__name__)
        if not R.is_map(got[1]):
            g.check(type(got[1]) is CLASSES[want[0]], 'class')
        else:
            g.check(want[0] is MUTABLE or want[0] is FIXED, 'class')
        g.check(g.same(plain(got[1]), plain(want[1])), 'value')


def implements(g, n):
    """Whatever comes out of a protocol implements it; protocols nothing implements are refused."""
    p = g.choice('protocol', (Hashes, Backwards, Long, Shouts, Counts, SupportsAbs, Nobody, Unchecked))
    e = g.choice('e', (1, 1.5, True, 'ab', 'abcd', '1j', None, [1, 2], {'a': 1}, [], {}))
    got = F.run(p, e)
    if p is Nobody or p is Unchecked:
        g.check(got[0] == 'no', 'refused')
    elif got[0] == 'ok':
        g.check(isinstance(got[1], p), 'implemented')


QUICK = dict(leaf='all', width=1, faults=1, places=('plain', 'default'))
DEEP = dict(QUICK, faults=2, places=('plain', 'default', 'list', 'field'))
SMALL = ('int_str', 'str_int', 'float_bool', 'bool_int_str', 'seqs', 'map_seq', 'chained', 'union', 'point_pair', 'lits')
HARNESSES = [Harness(variable, dict(QUICK, which=w, small=w in SMALL), dict(DEEP, which=w, small=w in SMALL), name='var_' + w)
             for w in STANDS]
HARNESSES += [Harness(variable, dict(leaf='two', width=1, faults=1, small=True, which=w, places=('list', 'dict', 'optional', 'tuple', 'field', 'call')), name='inside_' + w)
              for w in ('int', 'point', 'int_str', 'seqs', 'chained')]
HARNESSES += [Harness(free, dict(depth=2, width=1), dict(depth=3, width=2))]
HARNESSES += [Harness(protocol, dict(which=w, n=2, places=('plain', 'default')), dict(which=w, n=4, places=('plain', 'default', 'list', 'field', 'optional')),
                      name='protocol_' + w) for w in PROTOCOLS]
HARNESSES += [Harness(protocol, dict(which=w, n=1, places=('list', 'field', 'optional')), name='within_' + w) for w in ('abs', 'shouts', 'long', 'keyed')]
HARNESSES += [Harness(implements, dict(n=1))]
