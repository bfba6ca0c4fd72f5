"""C50: help describes types and fields in the words written for them."""
import collections
import dataclasses
import types
from typing import Any, Dict, List, NamedTuple, Optional, Tuple, TypedDict

import docstring_parser
import marsh
from symx.base import Harness

U = marsh.utils


# compiled on its own: it runs in the globals of docstring_parser
STAND_IN = compile('def parse(text, *a, **kw):\n    return _verif_stand_in(text)', 'stand_in', 'exec').co_consts[0]


class Parser:
    """Stands in for docstring_parser: what a docstring means is any outcome at all."""

    def __init__(self, outcomes):
        self.outcomes = outcomes

    def __enter__(self):
        # whatever name marsh knows the function by
        self.fn = docstring_parser.parse
        self.before = self.fn.__code__
        self.fn.__globals__['_verif_stand_in'] = self.parse
        self.fn.__code__ = STAND_IN
        return self

    def __exit__(self, *a):
        self.fn.__code__ = self.before

    def parse(self, text, *a, **kw):
        got = self.outcomes.get(text)
        if got is None:
            return types.SimpleNamespace(short_description=None, long_description=None, params=[])
        if isinstance(got, Exception):
            raise got
        return got


def text(g, name, n):
    """None or a text, perhaps an empty one."""
    return g.str(name, n) if g.choice(name + '.given', (True, False)) else None


def outcome(g, name, n, many, names):
    if g.choice(name + '.parses', (True, False)) is False:
        return ValueError('can not be parsed')
    params = [types.SimpleNamespace(arg_name=g.choice(f'{name}.name{i}', names), description=text(g, f'{name}.param{i}', n))
              for i in range(g.choice(name + '.params', tuple(range(many + 1))))]
    return types.SimpleNamespace(short_description=text(g, name + '.short', n) if many == 0 else None,
                                 long_description=text(g, name + '.long', n) if many == 0 else None, params=params)


def written(out, field):
    """The description of a field given by a docstring."""
    if out is None or isinstance(out, Exception):
        return None
    for p in out.params:
        if p.arg_name == field and p.description:
            return p.description
    return None


class Plain:
    def __init__(self, x: int, y: str = 'a', *, z: float = 0.5):
        pass


class Rest:
    def __init__(self, x: int, *y: int, **z: int):
        pass


def function(x: int, y: str = 'a', *, z: float = 0.5):
    pass


class Ancestor:
    x: int
    """x of the ancestor"""
    y: str
    z: float
    """z of the ancestor"""

    def __init__(self, x: int, y: str = 'a', z: float = 0.5):
        pass


class Heir(Ancestor):
    x: int
    y: str
    """y of the heir"""
    other: int
    """not a parameter"""


class Second(Heir):
    z: float = 0.5
    """z of the second"""


class Third(Second):
    pass


class Fourth(Third):
    w: int
    """not a parameter either"""


@dataclasses.dataclass
class Data:
    x: int
    """x of
    the data"""
    y: str = 'a'
    'y of the data'
    z: float = dataclasses.field(default=0.5)


@dataclasses.dataclass
class MoreData(Data):
    z: float = 0.75
    """z of more data"""
    y: str = 'b'


class Pair(NamedTuple):
    x: int
    """x of the pair"""
    y: str = 'a'
    z: float = 0.5
    """z of the pair"""


class Keys(TypedDict, total=False):
    x: int
    y: str
    """y of the keys"""
    z: float


def inside():
    class Local:
        x: int
        """x of the local class"""
        y: str

        def __init__(self, x: int, y: str = 'a', z: float = 0.5):
            pass

    @dataclasses.dataclass
    class LocalData:
        x: int
        y: str = 'a'
        """y of the local data"""
        z: float = 0.5
    return Local, LocalData


class Outer:
    class Nested:
        x: int
        y: str
        """y of the nested class"""

        def __init__(self, x: int, y: str = 'a', z: float = 0.5):
            pass


Local, LocalData = inside()
# per type: the classes asked for a description, in order, with what is written at their attributes
TYPES = {
    'plain': (Plain, ((Plain, {}),)),
    'rest': (Rest, ((Rest, {}),)),
    'function': (function, ((function, {}),)),
    'ancestor': (Ancestor, ((Ancestor, {'x': 'x of the ancestor', 'z': 'z of the ancestor'}),)),
    'heir': (Heir, ((Heir, {'y': 'y of the heir'}), (Ancestor, {'x': 'x of the ancestor', 'z': 'z of the ancestor'}))),
    'second': (Second, ((Second, {'z': 'z of the second'}), (Heir, {'y': 'y of the heir'}), (Ancestor, {'x': 'x of the ancestor', 'z': 'z of the ancestor'}))),
    'fourth': (Fourth, ((Fourth, {'w': 'not a parameter either'}), (Third, {}), (Second, {'z': 'z of the second'}), (Heir, {'y': 'y of the heir'}),
                        (Ancestor, {'x': 'x of the ancestor', 'z': 'z of the ancestor'}))),
    'data': (Data, ((Data, {'x': 'x of\nthe data', 'y': 'y of the data'}),)),
    'more': (MoreData, ((MoreData, {'z': 'z of more data'}), (Data, {'x': 'x of\nthe data', 'y': 'y of the data'}))),
    'pair': (Pair, ((Pair, {'x': 'x of the pair', 'z': 'z of the pair'}),)),
    'keys': (Keys, ((Keys, {'y': 'y of the keys'}),)),
    'local': (Local, ((Local, {'x': 'x of the local class'}),)),
    'local data': (LocalData, ((LocalData, {'y': 'y of the local data'}),)),
    'nested': (Outer.Nested, ((Outer.Nested, {'y': 'y of the nested class'}),)),
}


class Docstrings:
    """Gives classes the docstrings 'doc 0', 'doc 1', ... for the time of a run."""

    def __init__(self, owners, which):
        self.owners, self.which = owners, which

    def __enter__(self):
        self.before = [o.__doc__ for o in self.owners]
        for i in range(len(self.owners)):
            self.owners[i].__doc__ = f'doc {i}' if self.which[i] else None
        return self

    def __exit__(self, *a):
        for o, d in zip(self.owners, self.before):
            o.__doc__ = d


def fields(g, which, n, many, names):
    """The docstring of a class comes first, then its attributes, then those of its ancestors."""
    t, chain = TYPES[which]
    owners = [o for o, _ in chain]
    has = [g.choice(f'doc{i}', (True, False)) for i in range(len(owners))]
    if len(owners) > 3:
        g.assume(sum([1 for h in has if h]) <= 1)
    outs = {f'doc {i}': outcome(g, f'out{i}', n, many, names) for i in range(len(owners)) if has[i]}
    marsh.schema.UnmarshalSchema.cache_clear()
    with Docstrings(owners, has), Parser(outs):
        doc = marsh.schema.UnmarshalSchema(t).doc(depth=1)
        direct = {f: U.get_attribute_description(t, f) for f in 'xyzw'}
    g.check([f.strip('*') for f in doc.fields] == ['x', 'y', 'z'], 'fields')
    for name, field in doc.fields.items():
        f = name.strip('*')
        want = None
        for i in range(len(chain)):
            want = want or written(outs.get(f'doc {i}'), f) or chain[i][1].get(f)
        g.check((field.description or None) is None if want is None else g.same(field.description, want), 'description')
        g.check(g.same(direct[f], field.description), 'description')
    if not any([written(o, 'w') for o in outs.values()]) and which != 'fourth':
        g.check(not direct['w'], 'no such field')


class Described:
    def __init__(self, x: int = 1):
        pass


def described(x: int = 1):
    pass


def whole(g, n, kinds):
    """A type is described by the texts of its docstring, or by all of it if it has no such texts."""
    kind = g.choice('kind', kinds)
    t = {'class': Described, 'function': described}[kind]
    has = g.choice('has', (True, False))
    out = outcome(g, 'out', n, 0, ('x',)) if has else None
    marsh.schema.UnmarshalSchema.cache_clear()
    with Docstrings([t], [has]), Parser({'doc 0': out} if has else {}):
        got = marsh.schema.UnmarshalSchema(t).doc_description()
        in_doc = marsh.schema.UnmarshalSchema(t).doc(depth=0).description
        plain = U.get_description(t)
    if not has:
        want = None
    elif isinstance(out, Exception):
        want = 'doc 0'
    else:
        parts = [p for p in (out.short_description, out.long_description) if p]
        want = '\n\n'.join(parts) or 'doc 0'
    for d in (got, in_doc, plain):
        g.check(d is None if want is None else g.same(d, want), 'description')


@dataclasses.dataclass
class Empty:
    pass


@dataclasses.dataclass
class Many:
    x: int
    y: Dict[str, List[int]] = dataclasses.field(default_factory=dict)
    z: Optional[str] = None
    t: Tuple[int, ...] = (1, 2)
    s: str = 'a) -> (b: c = d'


class One(NamedTuple):
    x: int


Flat = collections.namedtuple('Flat', 'x y z')
Zero = collections.namedtuple('Zero', '')
GENERATED = {'data': Data, 'empty': Empty, 'many': Many, 'local': LocalData, 'pair': Pair, 'one': One, 'flat': Flat, 'zero': Zero}
TEXTS = ('A thing.', 'Keeps (x, y)', 'Point of two numbers\n\nand a mark.', 'x(y', ')', 'Data (x: int)')


def generated(g):
    """Docstrings that python wrote itself are no descriptions, others are."""
    t = GENERATED[g.choice('type', tuple(GENERATED))]
    own = g.choice('own', (None,) + TEXTS)
    before = t.__doc__
    marsh.schema.UnmarshalSchema.cache_clear()
    try:
        if own is not None:
            t.__doc__ = own
        got = marsh.schema.UnmarshalSchema(t).doc_description()
    finally:
        t.__doc__ = before
    g.check(got == own if own is not None else not got, 'description')


NAMES = ('x', 'y')
HARNESSES = [Harness(fields, dict(which=w, n=1, many=1 if len(c) > 2 else 2 if len(c) == 1 else 1, names=NAMES),
                     dict(which=w, n=2, many=2 if len(c) < 2 else 1, names=('x', 'y', 'z', 'w') if len(c) < 3 else NAMES), name='fields_' + w.replace(' ', '_'))
             for w, (_, c) in TYPES.items()]
HARNESSES += [Harness(whole, dict(n=2, kinds=('class', 'function')), dict(n=4, kinds=('class', 'function'))), Harness(generated)]
