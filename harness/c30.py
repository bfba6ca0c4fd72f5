"""C30: the dictionaries for unhashable keys are mappings in order of insertion."""
import collections

from marsh.utils import SafeDict, ValueCache
from symx.base import Harness

MISS = object()


class Sub(list):
    pass


def key(g, name, kinds):
    k = g.choice(name + '.kind', tuple(kinds))
    if k == 'int':
        return g.int(name)
    if k == 'str':
        return g.str(name, 2)
    if k == 'list':
        return [g.int(name)]
    if k == 'kin':          # equal values of different types, without a hash
        v = g.int(name)
        return {'dict': {'a': v}, 'ordered': collections.OrderedDict(a=v), 'list': [v], 'sublist': Sub([v])}[g.choice(name + '.type', ('dict', 'ordered', 'list', 'sublist'))]
    if k == 'map':
        return {'a': g.int(name)}
    if k == 'empty':
        return g.choice(name, ([], {}, (), ''))
    if k == 'tuple':
        return (g.int(name), 'a')
    if k == 'nested':
        return (1, [g.int(name)])
    if k == 'minus':
        return g.choice(name, (-1, -2))          # their hashes are equal
    if k == 'types':
        return g.choice(name, (int, str, float, None))
    return g.choice(name, (1, True, 1.0, 0, False, 0.0))    # equal values of different types


def hashable(k):
    if isinstance(k, (list, dict)):
        return False
    if isinstance(k, tuple):
        return all([hashable(x) for x in k])
    return True


def same_key(a, b, typed):
    if hashable(a) != hashable(b):
        return False
    if typed and type(a) is not type(b):
        return False
    return a == b


def same_value(a, b):
    return a is b


def find(model, k, typed):
    for i, (o, _) in enumerate(model):
        if same_key(o, k, typed):
            return i
    return None


def agrees(g, d, model):
    g.check(len(d) == len(model), 'length')
    got = list(d)
    g.check(len(got) == len(model), 'keys')
    for k, (o, _) in zip(got, model):
        g.check(type(k) is type(o), 'keys')
        g.check(g.same(k, o), 'keys')
    back = list(reversed(d))
    g.check(len(back) == len(model), 'reversed')
    for k, (o, _) in zip(back, model[::-1]):
        g.check(g.same(k, o), 'reversed')
    items = list(d.items())
    for (_, v), (_, w) in zip(items, model):
        g.check(v is w, 'values')


def step(g, i, d, model, kinds, ops):
    op = g.choice(f'op{i}', tuple(ops))
    if op == 'clear':
        d.clear()
        return []
    if op == 'popitem':
        try:
            k, v = d.popitem()
        except KeyError:
            g.check(not model, 'popitem')
            return model
        g.check(len(model) > 0, 'popitem')
        at = find(model, k, False)
        g.check(at is not None, 'popitem')
        g.check(model[at][1] is v, 'popitem')
        return model[:at] + model[at + 1:]
    k = key(g, f'k{i}', kinds)
    at = find(model, k, False)
    v = object()
    if op == 'set':
        d[k] = v
        return model + [(k, v)] if at is None else model[:at] + [(model[at][0], v)] + model[at + 1:]
    if op == 'default':
        got = d.setdefault(k, v)
        g.check(got is (v if at is None else model[at][1]), 'setdefault')
        return model + [(k, v)] if at is None else model
    if op == 'get':
        g.check(d.get(k, MISS) is (MISS if at is None else model[at][1]), 'get')
        g.check((k in d) is (at is not None), 'contains')
        try:
            got = d[k]
        except KeyError:
            got = MISS
        g.check(got is (MISS if at is None else model[at][1]), 'getitem')
        return model
    try:
        if op == 'pop':
            g.check(d.pop(k) is model[at][1] if at is not None else d.pop(k, v) is v, 'pop')
        else:
            del d[k]
            g.check(at is not None, 'deleted')
    except KeyError:
        g.check(at is None, 'deleted')
    return model if at is None else model[:at] + model[at + 1:]


def history(g, n, kinds, ops, last=()):
    d, model = SafeDict(), []
    for i in range(n):
        model = step(g, i, d, model, kinds, last if last and i == n - 1 else ops)
    agrees(g, d, model)


def cached(g, n, kinds, ops, typed):
    """ValueCache: as above through its hash keys, with hits counted; nothing is stored while disabled."""
    c, model, hits, misses, off = ValueCache(typed=typed), [], 0, 0, False
    for i in range(n):
        op = g.choice(f'op{i}', tuple(ops))
        if op == 'clear':
            c.cache_clear()
            model, hits, misses = [], 0, 0
            continue
        if op == 'switch':
            off = not off
            c.cache_disable() if off else c.cache_enable()
            continue
        k = key(g, f'k{i}', kinds)
        at = find(model, k, typed)
        if op == 'set':
            v = object()
            c[k] = v
            if not off:
                model = model + [(k, v)] if at is None else model[:at] + [(k, v)] + model[at + 1:]
        elif op == 'get':
            try:
                got = c[k]
            except KeyError:
                got = MISS
            g.check(got is (MISS if at is None or off else model[at][1]), 'get')
            if not off:
                hits, misses = (hits, misses + 1) if at is None else (hits + 1, misses)
        else:
            try:
                del c[k]
                g.check(at is not None, 'deleted')
            except KeyError:
                g.check(at is None, 'deleted')
            model = model if at is None else model[:at] + model[at + 1:]
        g.check(len(c) == len(model), 'length')
    info = c.cache_info()
    g.check((info.hits, info.misses, info.currsize) == (hits, misses, len(model)), 'counted')


MIX = ('int', 'list')
MANY = ('int', 'str', 'list', 'map', 'tuple', 'nested')
ODD = ('empty', 'minus', 'types', 'equal', 'list')
HARNESSES = [
    Harness(history, dict(n=3, kinds=MIX, ops=('set', 'del', 'get', 'pop', 'default')), dict(n=4, kinds=MIX, ops=('set', 'del', 'default')), name='mixed'),
    Harness(history, dict(n=4, kinds=MIX, ops=('set',), last=('set', 'del', 'pop', 'popitem')), dict(n=5, kinds=MIX, ops=('set',), last=('set', 'del', 'pop', 'popitem')), name='long'),
    Harness(history, dict(n=3, kinds=MANY, ops=('set',), last=('set', 'del', 'get')), dict(n=3, kinds=MANY, ops=('set', 'del', 'clear', 'popitem'), last=('set', 'del', 'get')), name='many'),
    Harness(history, dict(n=3, kinds=ODD, ops=('set',), last=('del', 'get')), dict(n=3, kinds=ODD, ops=('set', 'del'), last=('set', 'del', 'get')), name='odd'),
    Harness(history, dict(n=4, kinds=('list', 'str'), ops=('set', 'clear', 'popitem')), dict(n=5, kinds=('list', 'str'), ops=('set', 'clear', 'popitem')), name='emptied'),
    Harness(history, dict(n=2, kinds=('kin',), ops=('set',), last=('set', 'del', 'get')), dict(n=3, kinds=('kin',), ops=('set', 'del'), last=('set', 'del', 'get')), name='kin'),
]
for typed in (False, True):
    HARNESSES += [
        Harness(cached, dict(n=3, kinds=MIX, ops=('set', 'get', 'del'), typed=typed), dict(n=4, kinds=MIX, ops=('set', 'get', 'del'), typed=typed), name=f'cache_{typed}'),
        Harness(cached, dict(n=2, kinds=MANY + ODD + ('kin',), ops=('set', 'get'), typed=typed), dict(n=3, kinds=MANY + ODD + ('kin',), ops=('set', 'get'), typed=typed), name=f'cache_kinds_{typed}'),
        Harness(cached, dict(n=4, kinds=('int',), ops=('set', 'get', 'clear', 'switch'), typed=typed), dict(n=5, kinds=('int',), ops=('set', 'get', 'clear', 'switch', 'del'), typed=typed), name=f'cache_switch_{typed}'),
    ]
