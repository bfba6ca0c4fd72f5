"""C51: the types met so far, newest first, while types come and go."""
import gc
import typing

from marsh.utils import WeakTypeCache
from symx.base import Harness

NAMES = 'abcd'


class Item:
    """Something a weak reference can be made to, and which goes away with its last name."""
    def __init__(self, name):
        self.name = name


def made(kind, name):
    if kind == 'item':
        return Item(name)
    if kind == 'class':
        return type(name, (), {'name': name})

    def function():
        pass
    function.name = name
    return function


class Walk:
    """An iteration under way: what was there all along is met once, in order, newest first."""
    def __init__(self, cache, model):
        self.it = iter(cache)
        self.seen = []
        self.constant = list(model)     # there since the start, and not moved
        self.ever = set(model)


def history(g, kind, count, steps, ops):
    skip = g.choice('skipped', (False, True))
    owned = {n: made(kind, n) for n in NAMES[:count]}
    cache = WeakTypeCache(skip_types=[owned['a']] if skip else [])
    skipped = owned['a'] if skip else None
    model = []      # names, oldest first
    fading = []     # dropped during an iteration, which may hold on to what it is to meet
    walk = None
    for i in range(steps):
        op = g.choice(f'op{i}', ops)
        if op in ('add', 'drop', 'in'):
            n = g.choice(f'n{i}', tuple(NAMES[:count]))
        if op == 'add':
            if owned[n] is None:
                owned[n] = made(kind, n + str(i))
            cache.add(owned[n])
            if owned[n] is not skipped:
                name = owned[n].name
                if name in model:
                    model.remove(name)
                model.append(name)
                if walk:
                    walk.constant = [x for x in walk.constant if x != name]
                    walk.ever.add(name)
        elif op == 'drop':
            g.assume(owned[n] is not None)
            name = owned[n].name
            if name in model:
                model.remove(name)
                if walk:
                    fading.append(name)
                    walk.constant = [x for x in walk.constant if x != name]
            owned[n] = None
            if kind == 'class':
                gc.collect()
        elif op == 'clear':
            cache.clear()
            model = []
            if walk:
                walk.constant = []
        elif op == 'in':
            if owned[n] is not None:
                g.check((owned[n] in cache) == (owned[n].name in model), 'membership')
        elif op == 'walk':
            g.assume(walk is None)
            walk = Walk(cache, model)
        elif op == 'step':
            g.assume(walk is not None)
            got = next(walk.it, None)
            if got is None:
                finished(g, walk)
                walk = None
                fading = []
                gc.collect()
            else:
                walk.seen.append(got.name)
                del got
        names = [t.name for t in cache]
        g.check([n for n in names if n not in fading] == model[::-1], 'newest first')
        g.check(len(model) <= len(cache) <= len(model) + len(fading), 'length')
    if walk:
        for got in walk.it:
            walk.seen.append(got.name)
            del got
        finished(g, walk)


def finished(g, walk):
    g.check(len(set(walk.seen)) == len(walk.seen), 'each once')
    g.check(all([n in walk.ever for n in walk.seen]), 'only what was added')
    g.check([n for n in walk.seen if n in walk.constant] == walk.constant[::-1], 'what stays is met, newest first')


def ignored(g):
    """Hints of typing are no types of their own, and what can not be referenced is refused."""
    cache = WeakTypeCache(skip_types=g.choice('skip', ((), (int, None))))
    item = Item('x')
    cache.add(item)
    which = g.choice('which', ('list', 'dict', 'union', 'optional', 'annotated', 'literal', 'number', 'text', 'none'))
    value = {'list': typing.List[int], 'dict': typing.Dict[str, Item], 'union': typing.Union[int, str],
             'optional': typing.Optional[Item], 'annotated': typing.Annotated[int, 'x'], 'literal': typing.Literal['x'],
             'number': 5, 'text': 'x', 'none': None}[which]
    try:
        cache.add(value)
    except TypeError:
        g.check(which in ('number', 'text', 'none'), 'refused')
    g.check([t for t in cache] == [item], 'hints are not kept')
    g.check(len(cache) == 1, 'length')


OPS = ('add', 'drop', 'clear', 'in', 'walk', 'step')
WALK = ('add', 'drop', 'step', 'walk')
HARNESSES = [
    Harness(history, dict(kind='item', count=2, steps=5, ops=OPS), dict(kind='item', count=3, steps=6, ops=OPS), name='items', weight=4),
    Harness(history, dict(kind='item', count=3, steps=5, ops=WALK), dict(kind='item', count=4, steps=6, ops=WALK), name='walk', weight=4),
    Harness(history, dict(kind='class', count=2, steps=4, ops=WALK), dict(kind='class', count=3, steps=5, ops=WALK), name='classes', weight=4),
    Harness(history, dict(kind='function', count=2, steps=4, ops=OPS), dict(kind='function', count=3, steps=5, ops=OPS), name='functions'),
    Harness(ignored, {}, name='ignored'),
]
