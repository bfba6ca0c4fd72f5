"""C31: caching a function does not change what it returns."""
from marsh.utils import CachePool, cache
from symx.base import Harness


class Result:
    def __init__(self, owner, args, kwargs):
        self.owner, self.args, self.kwargs = owner, args, kwargs


class Box:
    """Owner of a cached method: equal to every other box unless it is its own."""

    def __init__(self, name):
        self.name = name


class Equal(Box):
    def __eq__(self, other):
        return isinstance(other, Equal) and self.name == other.name

    def __hash__(self):
        return 7


def hashable(x):
    return not isinstance(x, (list, dict))


def argument(g, name, kinds):
    k = g.choice(name + '.kind', tuple(kinds))
    if k == 'int':
        return g.int(name)
    if k == 'str':
        return g.str(name, 2)
    if k == 'list':
        return [g.int(name)]
    if k == 'tuple':
        return (g.int(name),)
    if k == 'minus':
        return g.choice(name, (-1, -2))
    return g.choice(name, (1, True, 1.0, 0, False))


class Fails(Exception):
    pass


def alike(g, a, b, typed):
    """Arguments for which a result may be shared."""
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if typed and type(x) is not type(y):
            return False
        if not x == y:
            return False
    return True


def identical(a, b):
    if a[2] != b[2]:
        return False
    for x, y in zip(a[0] + a[1], b[0] + b[1]):
        if type(x) is not type(y) or not x == y:
            return False
    return len(a[0]) == len(b[0]) and len(a[1]) == len(b[1])


def decorate(how, fn, **kw):
    if how == 'plain':
        return cache(fn, **kw)
    if how == 'factory':
        return cache(**kw)(fn)
    if how == 'pool':
        return CachePool().new_callable_cache(fn, name='verif', **kw)
    return CachePool().new_callable_cache(name='verif', **kw)(fn)


def history(g, n, kinds, forms, ops, typed, maxsize, binding, safe, hows, fails):
    calls = []

    def function(*args, **kwargs):
        calls.append(args)
        if fails and len(calls) in fails:
            raise TypeError('from the function') if fails[0] == 1 else Fails('from the function')
        return Result(None, args, kwargs)

    def method(self, *args, **kwargs):
        calls.append(args)
        return Result(self, args, kwargs)

    how = g.choice('how', tuple(hows))
    options = dict(maxsize=maxsize, typed=typed, safe=safe, binding=binding)
    cached = decorate(how, function if binding is None else method, **options)
    owners = (Box('a'), Box('b')) if binding is None or g.choice('owners', (True, False)) else (Equal('a'), Equal('b'))
    off, seen, counted = False, [], 0
    for i in range(n):
        op = g.choice(f'op{i}', tuple(ops))
        if op == 'clear':
            cached.cache_clear()
            seen, counted = [], 0
            continue
        if op == 'switch':
            off = not off
            cached.cache_disable() if off else cached.cache_enable()
            continue
        form = g.choice(f'form{i}', tuple(forms))
        x = argument(g, f'x{i}', kinds)
        args = (x,) if form == 'one' else (x, argument(g, f'y{i}', kinds)) if form == 'two' else ()
        kwargs = {'k': x} if form == 'key' else {'k': x, 'l': 0} if form == 'keys' else {'l': 0, 'k': x} if form == 'swapped' else {}
        owner = g.choice(f'owner{i}', owners) if binding is not None else None
        before = len(calls)
        try:
            r = cached(*args, **kwargs) if binding is None else cached(owner, *args, **kwargs)
        except TypeError:
            failing = bool(fails) and len(calls) in fails
            plain = all([hashable(a) for a in args]) and all([hashable(a) for a in kwargs.values()])
            g.check(failing or (not safe and not plain and not off), 'raised')
            continue
        except Fails:
            g.check(bool(fails) and len(calls) in fails, 'raised')
            continue
        g.check(alike(g, r.args, args, typed), 'arguments')
        g.check(sorted(r.kwargs) == sorted(kwargs), 'arguments')
        for k in kwargs:
            g.check(alike(g, (r.kwargs[k],), (kwargs[k],), typed), 'arguments')
        if binding == 'weak':
            g.check(r.owner is owner or (r.owner == owner and isinstance(owner, Equal)), 'owner')
        plain = all([hashable(a) for a in args]) and all([hashable(a) for a in kwargs.values()])
        made = len(calls) > before
        g.check(len(calls) - before <= 1, 'called once')
        if off or not plain:
            g.check(made, 'bypassed')
        else:
            counted += 1
            this = (args, tuple(kwargs.values()), (form, owner.name if binding == 'weak' else None))
            known = [s for s in seen if identical(s, this)]
            if known and maxsize is None:
                g.check(not made, 'cached')
            if not known:
                seen = seen + [this]
            if maxsize == 0:
                g.check(made, 'nothing kept')
        if made and binding is not None:
            g.check(r.owner is owner, 'owner')
    info = cached.cache_info()
    if not fails:
        g.check(info.hits + info.misses >= counted, 'counted')
    if maxsize is not None:
        g.check(info.currsize <= maxsize, 'bounded')
    cached.cache_clear()
    g.check(cached.cache_info().currsize == 0, 'cleared')


FORMS = ('one', 'two', 'key', 'keys', 'swapped', 'none')
BASE = dict(n=2, kinds=('int', 'str', 'list', 'tuple', 'minus', 'equal'), forms=('one',), ops=('call',), typed=False, maxsize=None,
            binding=None, safe=True, hows=('plain',), fails=())
HARNESSES = [
    Harness(history, BASE, dict(BASE, n=3), name='kinds'),
    Harness(history, dict(BASE, typed=True), dict(BASE, n=3, typed=True), name='typed'),
    Harness(history, dict(BASE, kinds=('int',), forms=FORMS), dict(BASE, n=3, kinds=('int', 'list'), forms=FORMS, typed=True), name='forms'),
    Harness(history, dict(BASE, n=4, kinds=('int',), ops=('call', 'clear', 'switch')), dict(BASE, n=5, kinds=('int', 'list'), ops=('call', 'clear', 'switch')), name='switched'),
    Harness(history, dict(BASE, n=4, kinds=('int',), maxsize=1), dict(BASE, n=5, kinds=('int',), maxsize=2), name='bounded'),
    Harness(history, dict(BASE, n=2, kinds=('int', 'list'), maxsize=0), dict(BASE, n=3, kinds=('int', 'list'), maxsize=0), name='nothing'),
    Harness(history, dict(BASE, n=3, kinds=('int', 'list'), binding='weak', hows=('plain', 'factory')), dict(BASE, n=4, kinds=('int', 'list'), binding='weak'), name='weak'),
    Harness(history, dict(BASE, n=3, kinds=('int',), binding='weak', ops=('call', 'switch')), dict(BASE, n=4, kinds=('int',), binding='weak', ops=('call', 'clear', 'switch')), name='weak_switched'),
    Harness(history, dict(BASE, n=3, kinds=('int', 'list'), binding='ignore', hows=('plain', 'pool')), dict(BASE, n=4, kinds=('int', 'list'), binding='ignore'), name='ignore'),
    Harness(history, dict(BASE, n=3, kinds=('int',), binding='ignore', forms=('one', 'key'), ops=('call', 'switch')), dict(BASE, n=4, kinds=('int',), binding='ignore', forms=('one', 'key'), ops=('call', 'clear', 'switch')), name='ignore_switched'),
    Harness(history, dict(BASE, kinds=('int', 'list'), safe=False, forms=('one', 'key'), hows=('plain', 'factory', 'pool', 'named')), dict(BASE, n=3, kinds=('int', 'list'), safe=False, forms=('one', 'key', 'two'), hows=('plain', 'named')), name='unsafe'),
    Harness(history, dict(BASE, n=3, kinds=('int', 'list'), fails=(2,)), dict(BASE, n=4, kinds=('int', 'list'), fails=(2, 3)), name='fails'),
    Harness(history, dict(BASE, n=2, kinds=('int', 'list'), fails=(1, 2, 3, 4, 5, 6)), dict(BASE, n=3, kinds=('int', 'list'), fails=(1, 2, 3, 4, 5, 6, 7)), name='type_errors'),
]
