"""C54: behind annotations, type variables, references and wrappers a type is found and documented as itself."""
import dataclasses
import datetime
import enum
import typing
from typing import Annotated, Any, Dict, List, Literal, NamedTuple, Optional, Tuple, TypedDict, TypeVar, Union

import marsh
from symx.base import Harness
from harness import c39

REG = marsh.schema.UnmarshalSchema.registry
OURS = []


class Color(enum.Enum):
    R = 'red'
    G = 'green'


class Pair(NamedTuple):
    """Two."""
    p: c39.A
    q: int = 5


@dataclasses.dataclass
class Tree:
    """A tree.

    Of any size.
    """
    v: int
    k: 'List[Tree]' = dataclasses.field(default_factory=list)
    w: Optional['Tree'] = None


class Open(TypedDict, total=False):
    a: int
    t: Tree


class Note(marsh.annotation.Annotation):
    def __call__(self, value):
        return value


class Before(marsh.annotation.PreAnnotation):
    def __call__(self, element):
        return element


TYPES = {
    'int': int, 'str': str, 'any': Any, 'none': None, 'bytes': bytes, 'complex': complex, 'slice': slice, 'date': datetime.date,
    'list': List[c39.A], 'dict': Dict[str, c39.B], 'tuple': Tuple[int, c39.A], 'many': Tuple[c39.A, ...],
    'union': Union[c39.A, c39.B], 'optional': Optional[c39.Root], 'literal': c39.LONG, 'one': Literal['x'], 'enum': Color,
    'pair': Pair, 'typed': c39.Typed, 'tree': Tree, 'open': Open, 'root': c39.Root, 'function': c39.deep, 'home': c39.Home,
    'default': typing.DefaultDict[str, int], 'set': typing.Set[int],
}
NAMED = ('pair', 'typed', 'tree', 'open', 'root', 'home')
MODULES = {'typed': 'harness.c39.Typed', 'root': 'harness.c39.Root', 'home': 'harness.c39.Home'}


def reset():
    for s in OURS:
        if s in list(REG.priority):
            del REG.priority[list(REG.priority).index(s)]
    del OURS[:]
    for name in list(marsh.namespaces):
        del marsh.namespaces[name]
    marsh.schema.UnmarshalSchema.cache_clear()


def wrapper(t):
    class Wraps(marsh.schema.core.unmarshal.WrapperUnmarshalSchema):
        @classmethod
        def match(cls, value):
            return value is t or value == t

    OURS.append(Wraps)
    marsh.schema.register(Wraps, priority=30)
    return t


def disguised(t, how):
    for h in how.split(' '):
        if h == 'note':
            t = Annotated[t, 'words', Note()]
        elif h == 'before':
            t = Annotated[t, Before]
        elif h == 'bound':
            t = TypeVar('Bound', bound=t)
        elif h == 'limited':
            t = TypeVar('Limited', *t.__args__)
        elif h == 'wrapped':
            t = wrapper(t)
    return t


def plain(value):
    """The type a schema is for, whatever it is hidden behind."""
    while True:
        if isinstance(value, TypeVar):
            value = Union[value.__constraints__] if value.__constraints__ else value.__bound__
        elif typing.get_origin(value) is Annotated:
            value = value.__origin__
        else:
            return type(None) if value is None else value


# how the type comes to be part of another
PLACES = {
    'itself': lambda t: t,
    'list': lambda t: List[t],
    'dict': lambda t: Dict[str, t],
    'optional': lambda t: Optional[t],
    'field': lambda t: dataclasses.make_dataclass('Holder', [('a', t), ('n', int, 1)]),
    'argument': lambda t: function(t),
    'typed': lambda t: TypedDict('Holding', {'a': t, 'n': int}),
}


def function(t):
    def call(a, n: int = 1, *rest, **more):
        """Calls.

        Arguments:
            a: The first.
        """
    call.__annotations__.update(a=t)
    return call


def look(t, path, depth, kwargs):
    """What is seen of a type from the outside."""
    try:
        schema = marsh.schema.UnmarshalSchema(t, **kwargs)
        if path is not None:
            schema = schema.select(path)
    except marsh.errors.PathError as err:
        return 'no', str(err)
    doc = schema.doc(depth)
    return ('yes', plain(schema.value), str(schema), schema.doc_type(), schema.doc_field_type(), schema.doc_default(),
            schema.doc_description(), doc, marsh.doc.terminal.format_unmarshal_help(schema, depth=depth, width=60))


PARTS = ('found', 'type', 'text', 'type text', 'field type', 'default', 'description', 'documentation', 'help')


def same_value(a, b):
    return a is b or a == b or (getattr(a, '__name__', 0) in ('Holder', 'Holding', 'call') and a.__name__ == getattr(b, '__name__', None)) \
        or [plain(x) for x in getattr(a, '__args__', [a])] == [plain(x) for x in getattr(b, '__args__', [b])]


def compare(g, got, want):
    g.check(got[0] == want[0], 'found or not')
    if got[0] != want[0]:
        return
    if got[0] == 'no':
        g.cover('not found')
        g.check(got[1] == want[1], 'message')
        return
    g.cover('found')
    for name, a, b in zip(PARTS, got, want):
        g.check(same_value(a, b) if name == 'type' else a == b, name)


def alike(g, types, hows, places, n, depth):
    """Every path leads to the same, and shows the same at every depth."""
    name = g.choice('type', types)
    how = g.choice('how', hows)
    place = g.choice('place', places)
    t = TYPES[name]
    if 'bound' in how:
        g.assume(name != 'none')        # means no bound
    if place == 'optional':
        g.assume(name not in ('none', 'union', 'optional'))     # one union of all members
    if 'limited' in how:
        g.assume(name == 'union')
    path = g.str('path', n, alphabet='ascii') if n else '' if place in ('list', 'dict', 'optional') else None
    letters = 'abnopqtvwkxyzr.\''
    for c in path or '':
        g.assume(g.Or(*[c == x for x in letters]))
    at = g.choice('depth', tuple(range(depth + 1)))
    kwargs = {}
    if place == 'itself' and g.choice('given', (False, True)):
        kwargs['default'] = g.choice('default', (0, 'text', None))
    reset()
    want = look(PLACES[place](t), path, at, kwargs)
    reset()
    got = look(PLACES[place](disguised(t, how)), path, at, kwargs)
    reset()
    if ('wrapped' in how or place != 'itself') and got[0] == want[0] == 'yes':
        # types met before may be shown by their name alone
        got, want = [x[:2] + ('<' in x[2],) + x[3:] for x in (got, want)]
    compare(g, got, want)


HOWS = ('note', 'before', 'bound', 'wrapped', 'note bound', 'bound note', 'wrapped note', 'limited', 'wrapped bound')
IN = ('list', 'dict', 'optional', 'field', 'argument', 'typed')
FEW = ('note', 'bound', 'wrapped', 'note bound')
HARNESSES = [Harness(alike, dict(types=tuple(TYPES), hows=HOWS, places=('itself',), n=0, depth=1),
                     dict(types=tuple(TYPES), hows=HOWS, places=('itself',), n=0, depth=3), name='types')]
HARNESSES += [Harness(alike, dict(types=tuple(TYPES), hows=('note', 'bound'), places=(p,), n=0, depth=1),
                      dict(types=tuple(TYPES), hows=HOWS, places=(p,), n=0, depth=3), name='in_' + p) for p in IN]
HARNESSES += [Harness(alike, dict(types=(t,), hows=('note', 'bound', 'wrapped'), places=('itself', 'field'), n=2, depth=0),
                      dict(types=(t,), hows=HOWS, places=('itself',) + IN, n=3, depth=1), name='paths_' + t)
              for t in ('pair', 'typed', 'tree', 'function', 'union', 'optional', 'list')]
