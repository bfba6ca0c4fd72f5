"""C41: containers of the user are read and written like the builtin ones."""
import abc
import collections
import collections.abc
import dataclasses
import types
from typing import (Any, Deque, Dict, Generic, Iterable, List, Mapping, MutableMapping, MutableSequence, Optional, OrderedDict,
                    Sequence, Set, Tuple, TypeVar)

import marsh
from symx.base import Harness
from harness import elements as R
from harness import ref as F
from harness import types_pool as T

K, V = TypeVar('K'), TypeVar('V')


class Ints(List[int]):
    pass


class Bare(list):
    pass


class More(Ints):
    pass


class Pack(tuple):
    pass


class UserInts(collections.UserList):
    pass


class Owned(collections.abc.Sequence):
    """All that Python asks of a sequence."""

    def __init__(self, items=()):
        self.items = list(items)

    def __getitem__(self, i):
        return self.items[i]

    def __len__(self):
        return len(self.items)


class Like:
    """All that marsh asks of a sequence."""

    def __init__(self, items):
        self.items = list(items)

    def __contains__(self, value):
        return value in self.items

    def __getitem__(self, i):
        return self.items[i]

    def __len__(self):
        return len(self.items)


class LikeInts(Like, Generic[V]):
    def __init__(self, items):
        super().__init__(items)


class Table(Dict[str, int]):
    pass


class Plain(dict):
    pass


class Further(Table):
    pass


class UserTable(collections.UserDict):
    pass


class OwnedTable(collections.abc.Mapping):
    def __init__(self, data=()):
        self.data = dict(data)

    def __getitem__(self, key):
        return self.data[key]

    def __iter__(self):
        return iter(self.data)

    def __len__(self):
        return len(self.data)


class LikeTable:
    """All that marsh asks of a mapping."""

    def __init__(self, data):
        self.data = dict(data)

    def __contains__(self, key):
        return key in self.data

    def __getitem__(self, key):
        return self.data[key]

    def __iter__(self):
        return iter(self.data)

    def __len__(self):
        return len(self.data)

    def get(self, key, default=None):
        return self.data.get(key, default)

    def items(self):
        return self.data.items()

    def keys(self):
        return self.data.keys()

    def values(self):
        return self.data.values()


class LikePairs(LikeTable, Generic[K, V]):
    def __init__(self, data):
        super().__init__(data)


class OpenInts(abc.ABC, Generic[V]):
    """A sequence of which there are no instances, only those of its subclasses."""

    @abc.abstractmethod
    def __contains__(self, value):
        ...

    @abc.abstractmethod
    def __getitem__(self, i):
        ...

    @abc.abstractmethod
    def __len__(self):
        ...


class OpenPairs(abc.ABC, Generic[K, V]):
    @abc.abstractmethod
    def __contains__(self, key):
        ...

    @abc.abstractmethod
    def __getitem__(self, key):
        ...

    @abc.abstractmethod
    def __iter__(self):
        ...

    @abc.abstractmethod
    def __len__(self):
        ...

    @abc.abstractmethod
    def get(self, key, default=None):
        ...

    @abc.abstractmethod
    def items(self):
        ...

    @abc.abstractmethod
    def keys(self):
        ...

    @abc.abstractmethod
    def values(self):
        ...


class PickyInts(List[int]):
    """Containers that check what they hold."""

    def __init__(self, items=()):
        super().__init__(items)
        refuse(self)


class PickyPack(Tuple[int, ...]):
    def __new__(cls, items=()):
        refuse(items)
        return super().__new__(cls, items)


class PickyTable(Dict[str, int]):
    def __init__(self, items=()):
        super().__init__(items)
        refuse(list(self.values()))


class PickySet(Set[int]):
    def __init__(self, items=()):
        super().__init__(items)
        refuse(list(self))


def refuse(items):
    if len(items) == 0:
        raise ValueError('empty')
    for x in items:
        if x < 0:
            raise LookupError('negative')


@dataclasses.dataclass
class Pickies:
    seq: PickyInts
    table: PickyTable
    n: int = 0


INTS, ANYS = F.Seq(T.INT), F.Seq(T.ANY)
# name: (type to ask for, what its items are, type of the value)
SEQUENCES = {
    'Ints': (Ints, INTS, Ints), 'Bare': (Bare, ANYS, Bare), 'More': (More, INTS, More), 'Pack': (Pack, ANYS, Pack),
    'UserInts': (UserInts, ANYS, UserInts), 'Owned': (Owned, ANYS, Owned),
    'LikeInts': (LikeInts[int], INTS, LikeInts), 'Deque': (Deque[int], INTS, collections.deque),
    'deque': (collections.deque, ANYS, collections.deque), 'Sequence': (Sequence[int], INTS, tuple),
    'OpenInts': (OpenInts[int], INTS, list),
    'MutableSequence': (MutableSequence[int], INTS, list), 'sequence': (collections.abc.Sequence, ANYS, tuple),
    'mutable': (collections.abc.MutableSequence, ANYS, list),
}
PAIRS, ANY_PAIRS = F.Map(T.STR, T.INT), F.Map(T.ANY, T.ANY)
MAPPINGS = {
    'Table': (Table, PAIRS, Table), 'Plain': (Plain, ANY_PAIRS, Plain), 'Further': (Further, PAIRS, Further),
    'UserTable': (UserTable, ANY_PAIRS, UserTable), 'OwnedTable': (OwnedTable, ANY_PAIRS, OwnedTable),
    'LikePairs': (LikePairs[str, int], PAIRS, LikePairs),
    'OpenPairs': (OpenPairs[str, int], PAIRS, dict),
    'OrderedDict': (OrderedDict[str, int], PAIRS, collections.OrderedDict),
    'ordered': (collections.OrderedDict, ANY_PAIRS, collections.OrderedDict),
    'Mapping': (Mapping[str, int], PAIRS, types.MappingProxyType), 'MutableMapping': (MutableMapping[str, int], PAIRS, dict),
    'mapping': (collections.abc.Mapping, ANY_PAIRS, types.MappingProxyType), 'mutable': (collections.abc.MutableMapping, ANY_PAIRS, dict),
}


@dataclasses.dataclass
class Holder:
    s: LikeInts[int]
    m: Optional[LikePairs[str, int]] = None
    d: Deque[int] = dataclasses.field(default_factory=collections.deque)


def contents(v):
    """Items of a container as a list, items of a mapping as a dictionary."""
    if isinstance(v, (LikeTable, collections.abc.Mapping)):
        return dict([(k, v[k]) for k in v.keys()])
    return [v[i] for i in range(len(v))]


def attempt(t, e, *default):
    try:
        return 'ok', marsh.unmarshal(t, e)
    except marsh.errors.MarshError as err:
        return 'no', err


def sequences(g, which, **cfg):
    """The type asked for with exactly the items of the list, refused where the list is."""
    t, items, out = SEQUENCES[g.choice('type', which)]
    e = items.gen(g, 'e', cfg) if items is INTS else anything(g, 'e', cfg)
    want = F.expect(items, e)
    got = attempt(t, e)
    g.check(got[0] == want[0], 'accepted')
    if got[0] == 'no' and want[0] == 'no' and items is INTS:
        plain = attempt(List[int], e)
        g.check(plain[0] == 'no' and plain[1].path == got[1].path, 'path')
    if got[0] == want[0] == 'ok':
        g.check(type(got[1]) is out, 'type')
        g.check(g.same(contents(got[1]), list(want[1])), 'items')
        g.check(g.same(marsh.marshal(got[1]), tuple(marsh.marshal(list(want[1])))), 'marshaled')


def anything(g, name, cfg):
    kind = g.choice(name + '.shape', ('seq', 'map', 'none', 'int', 'str', 'missing'))
    if kind == 'seq':
        return [g.int(f'{name}[{i}]') if i % 2 == 0 else g.str(f'{name}[{i}]', 1) for i in range(g.choice(name + '.len', (0, 1, 2, 3)))]
    if kind == 'map':
        n = g.choice(name + '.len', (0, 1, 2))
        return dict([(k, g.int(name + '.' + k)) for k in ('a', 'b')[:n]])
    return {'none': None, 'missing': marsh.MISSING}.get(kind, None) if kind in ('none', 'missing') else (
        g.int(name) if kind == 'int' else g.str(name, 1))


def mappings(g, which, **cfg):
    """The type asked for with exactly the keys and values of the dictionary, refused where the dictionary is."""
    t, items, out = MAPPINGS[g.choice('type', which)]
    e = items.gen(g, 'e', cfg) if items is PAIRS else anything(g, 'e', cfg)
    want = F.expect(items, e)
    got = attempt(t, e)
    g.check(got[0] == want[0], 'accepted')
    if got[0] == want[0] == 'ok':
        g.check(type(got[1]) is out, 'type')
        g.check(g.same(contents(got[1]), dict(want[1])), 'items')
        g.check(list(contents(got[1])) == list(want[1]), 'order')
        g.check(g.same(marsh.marshal(got[1]), marsh.marshal(dict(want[1]))), 'marshaled')


SEQ_FORMS = {'tuple': tuple, 'deque': collections.deque, 'Bare': Bare, 'Pack': Pack, 'UserInts': UserInts, 'Owned': Owned, 'Like': Like}
MAP_FORMS = {'OrderedDict': collections.OrderedDict, 'proxy': types.MappingProxyType, 'Plain': Plain, 'UserTable': UserTable,
             'OwnedTable': OwnedTable, 'LikeTable': LikeTable}


def dressed(e, seq, map_, keep=()):
    """The same element in other containers."""
    if R.is_map(e):
        return map_(dict([(k, dressed(v, seq, map_)) for k, v in e.items()]))
    if R.is_seq(e):
        return seq([dressed(v, seq, map_) for v in e])
    return e


TARGETS = dict(
    ints=INTS, tuples=F.Seq(T.INT, Tuple[int, ...], tuple), two=F.fixed(T.INT, T.STR), pairs=PAIRS, nested=F.Map(T.STR, INTS),
    lists=F.Seq(INTS), point=T.POINT, sized=T.SIZED, pair=T.PAIR, full=T.FULL, outer=T.OUTER, optional=F.Opt(INTS),
    union=F.Un(T.INT, INTS))


def inputs(g, which, seqs, maps, **cfg):
    """What containers an element is made of does not matter."""
    d = TARGETS[which]
    e = d.gen(g, 'e', cfg)
    seq, map_ = SEQ_FORMS[g.choice('sequences', seqs)], MAP_FORMS[g.choice('mappings', maps)]
    want = F.expect(d, e)
    got = attempt(d.t, dressed(e, seq, map_))
    g.check(got[0] == want[0], 'accepted')
    if got[0] == want[0] == 'ok':
        g.check(g.same(F.view(got[1]), F.view(want[1])), 'value')
    elif got[0] == 'no' and want[0] == 'no':
        plain = attempt(d.t, e)
        g.check(plain[0] == 'no' and got[1].path == plain[1].path, 'path')


def iterables(g, n):
    """Anything to iterate over is written as the sequence of what it yields."""
    items = [g.int(f'v{i}') if g.choice(f'kind{i}', ('int', 'str')) == 'int' else g.str(f's{i}', 1)
             for i in range(g.choice('len', tuple(range(n + 1))))]
    form = g.choice('form', ('generator', 'iterator', 'map', 'values', 'class', 'keys'))
    if form == 'keys':
        keys = ['a', 'b', 'c'][:len(items)]
        want, v = tuple(keys), dict(zip(keys, items)).keys()
    else:
        want = tuple(items)
        v = {'generator': lambda: (x for x in items), 'iterator': lambda: iter(items), 'map': lambda: map(lambda x: x, items),
             'values': lambda: dict(enumerate(items)).values(), 'class': lambda: Bag(items)}[form]()
    g.check(g.same(marsh.marshal(v), want), 'items')
    inside = {'generator': lambda: (x for x in items), 'class': lambda: Bag(items)}
    if form in inside:
        g.check(g.same(marsh.marshal({'k': [inside[form]()]}), {'k': (want,)}), 'items inside')


class Bag:
    def __init__(self, items):
        self.items = items

    def __iter__(self):
        return iter(self.items)


class Named:
    def __init__(self, name):
        self.name = name

    def __str__(self):
        return 'named ' + self.name


class Code(str):
    pass


def keys(g, n):
    """Keys are written as text: of what they marshal to when it is primitive, else of themselves."""
    kind = g.choice('key', ('str', 'int', 'bool', 'bytes', 'object', 'sub'))
    if kind == 'str':
        k = g.str('k', n)
        want = k
    elif kind == 'int':
        k = g.int('k', -999, 999)
        want = str(k)
    elif kind == 'bool':
        k = g.choice('k', (True, False))
        want = str(k)
    elif kind == 'bytes':
        k = g.choice('k', (b'', b'ab', b'\xff'))
        want = marsh.utils.bytes_to_base64(k)
    elif kind == 'sub':
        k = Code('x')
        want = 'x'
    else:
        k = Named('n')
        want = 'named n'
    v = g.int('v')
    form = MAP_FORMS[g.choice('form', tuple(MAP_FORMS))]
    got = marsh.marshal(form({k: v, ('t', 1): 'u'}))
    g.check(type(got) is dict and len(got) == 2, 'keys')
    g.check(g.same(list(got), [want, str(('t', 1))]), 'keys')
    g.check(g.same(got[want], v), 'value')


def picky(g, n):
    """What a container refuses is an error for the container, also when it is empty because nothing was given."""
    which = g.choice('type', (PickyInts, PickyPack, PickySet, PickyTable))
    place = g.choice('place', ('top', 'field', 'item'))
    size = g.choice('size', tuple(range(n + 1)))
    items = [g.int(f'v{i}') for i in range(size)]
    e = dict(zip('abcd', items)) if which is PickyTable else items
    if size == 0 and g.choice('missing', (False, True)):
        e = marsh.MISSING
    why = None if size else ValueError
    for x in items:
        if why is None and x < 0:
            why = LookupError
    if place == 'top':
        t, whole, path = which, e, ''
    elif place == 'item':
        t, whole, path = List[which], [e], '0'
    else:
        g.assume(which in (PickyInts, PickyTable))
        ok, path = ([0], 'seq') if which is PickyInts else ({'a': 0}, 'table')
        t, whole = Pickies, dict(seq=[0], table={'a': 0}, n=1)
        if marsh.utils.is_missing(e) and g.choice('left out', (False, True)):
            del whole[path]
        else:
            whole[path] = e
    try:
        got = marsh.unmarshal(t, whole)
    except marsh.errors.UnmarshalError as err:
        g.cover('refused')
        g.check(why is not None, 'accepted')
        if why is not None:
            g.check(err.path == path and err.type is which, 'the container is named')
            g.check(type(err.__cause__) is why, 'cause')
            g.check(str(err.__cause__) in err.pretty(cause=True), 'the reason is told')
        return
    except Exception as err:
        if isinstance(err, (ValueError, LookupError)):
            g.fail('not a marsh error')
            return
        raise
    g.cover('accepted')
    g.check(why is None, 'refused')
    v = got if place == 'top' else got[0] if place == 'item' else getattr(got, path)
    g.check(type(v) is which, 'type')
    if why is None:
        if which is PickySet:
            g.check(g.And(*[x in v for x in items]), 'items')
        else:
            g.check(g.same(contents(v) if which is not PickyTable else dict(v), e), 'items')


def unhashable(g, n):
    """A set of values that cannot be in a set is refused, the set without any is not."""
    size = g.choice('size', tuple(range(n + 1)))
    items = [[g.int(f'v{i}')] for i in range(size)]
    e = items if size or g.choice('given', (True, False)) else marsh.MISSING
    place = g.choice('place', ('top', 'item'))
    t, whole = (Set[List[int]], e) if place == 'top' else (Dict[str, Set[List[int]]], {'k': e})
    got = attempt(t, whole)
    g.check(got[0] == ('no' if size else 'ok'), 'accepted')
    if got[0] == 'no':
        g.check(isinstance(got[1], marsh.errors.UnmarshalError) and got[1].path == ('' if place == 'top' else 'k'), 'path')
        g.check(isinstance(got[1].__cause__, TypeError), 'cause')
    elif size == 0:
        v = got[1] if place == 'top' else got[1]['k']
        g.check(type(v) is set and len(v) == 0, 'empty')


CFG = dict(leaf='two', width=2, faults=1, strmax=1, keymax=1, rec=('map', 'seq'))
WIDE = dict(CFG, leaf='bad', width=3, faults=1)
ONE = dict(CFG, width=1, small=True)
HARNESSES = [
    Harness(sequences, dict(CFG, which=tuple(SEQUENCES)), dict(WIDE, which=tuple(SEQUENCES)), weight=2),
    Harness(mappings, dict(CFG, which=tuple(MAPPINGS)), dict(WIDE, width=2, which=tuple(MAPPINGS)), weight=2),
    Harness(iterables, dict(n=2), dict(n=3)),
    Harness(keys, dict(n=2), dict(n=3)),
    Harness(picky, dict(n=2), dict(n=3)),
    Harness(unhashable, dict(n=2), dict(n=3)),
]
RECORDS = ('point', 'sized', 'pair', 'full', 'outer')
BIG = ('outer', 'sized')
FEW = dict(ONE, seqs=('Pack', 'Like'), maps=('proxy', 'LikeTable'), extra=False, order=False)
EVERY = dict(ONE, seqs=tuple(SEQ_FORMS), maps=tuple(MAP_FORMS))
HARNESSES += [Harness(inputs, dict(FEW if w in RECORDS else EVERY, which=w),
                      dict(EVERY, extra=w not in BIG, order=w not in BIG, leaf='bad', width=1 if w in BIG else 2, which=w), name='inputs_' + w)
              for w in TARGETS]
