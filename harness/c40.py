"""C40: caches never change what marsh does: cleared, switched off, on, or looked at."""
import marsh
from marsh.utils import CachePool
from symx.base import Harness
from harness import ref as F
from harness import types_pool as T
from harness import c27, c28

CACHES = marsh.schema.caches


def reset():
    CACHES.cache_enable()
    c28.reset()


class Entry:
    """A cache in a pool, as it should be."""

    def __init__(self, kind):
        self.kind, self.on, self.keys, self.values = kind, True, [], []
        self.hits, self.misses, self.calls = 0, 0, 0

    def clear(self):
        self.keys, self.values, self.hits, self.misses = [], [], 0, 0

    def at(self, key):
        for i, k in enumerate(self.keys):
            if k == key:
                return i
        return -1


def pools(g, n, name, ops, kinds):
    """Histories of a pool: every member is reached by what is done to the pool, and nothing else is."""
    pool, entries, all_ = CachePool(), [], []

    def add(label):
        kind = g.choice(label + '.kind', kinds)
        key = g.str(label, name, 1)
        e = Entry(kind)
        if kind == 'value':
            e.cache = pool.new_value_cache(key)
        else:
            def fn(x, e=e):
                e.calls += 1
                return ('result', x)
            e.cache = (pool.new_callable_cache(fn, name=key) if kind == 'callable'
                       else pool.new_callable_cache(name=key, binding='ignore')(lambda self, x, fn=fn: fn(x)))
        all_.append(e)
        for pair in entries:
            if pair[0] == key:
                pair[1] = e
                return
        entries.append([key, e])

    def use(e, label):
        x = g.choice(label, (1, 2))
        i = e.at(x)
        if e.kind != 'value':
            calls = e.calls
            g.check(e.cache(x) == ('result', x) if e.kind == 'callable' else e.cache(None, x) == ('result', x), 'result')
            g.check(e.calls - calls == (0 if e.on and i >= 0 else 1), 'called')
            if e.on and i >= 0:
                e.hits += 1
            elif e.on:
                e.misses += 1
                e.keys.append(x)
        elif g.choice(label + '.set', (True, False)):
            v = g.int(label + '.value')
            e.cache[x] = v
            if e.on and i >= 0:
                e.values[i] = v
            elif e.on:
                e.keys.append(x)
                e.values.append(v)
        else:
            try:
                got = e.cache[x]
            except KeyError:
                got = None
            g.check(g.same(got, e.values[i] if e.on and i >= 0 else None), 'value')
            if e.on and i >= 0:
                e.hits += 1
            elif e.on:
                e.misses += 1

    add('first')
    for i in range(n):
        op = g.choice(f'op{i}', ops)
        if op == 'add':
            add(f'add{i}')
        elif op == 'use':
            use(all_[g.choice(f'which{i}', tuple(range(len(all_))))], f'use{i}')
        elif op == 'clear':
            pool.cache_clear()
            for _, e in entries:
                e.clear()
        elif op in ('disable', 'enable'):
            pool.cache_disable() if op == 'disable' else pool.cache_enable()
            for _, e in entries:
                e.on = op == 'enable'
        elif op == 'one':
            e = entries[g.choice(f'which{i}', tuple(range(len(entries))))]
            if e[1].on:
                pool[e[0]].cache_disable()
            else:
                pool[e[0]].cache_enable()
            e[1].on = not e[1].on
        elif op == 'clear one':
            e = entries[g.choice(f'which{i}', tuple(range(len(entries))))]
            pool[e[0]].cache_clear()
            e[1].clear()
    g.check(g.same(list(pool), [k for k, _ in entries]), 'names')
    g.check(len(pool) == len(entries), 'length')
    other = g.str('other', name, 1)
    g.check((other in pool) == g.Or(*[other == k for k, _ in entries]), 'membership')
    info = pool.cache_info()
    g.check(g.same(list(info), [k for k, _ in entries]), 'names')
    for k, e in entries:
        g.check(pool[k] is e.cache, 'member')
        got = info[k]
        g.check(got.currsize == len(e.keys), 'size')
        g.check(got.hits == e.hits, 'hits')
        g.check(got.misses == e.misses, 'misses')


def operate(g, label, ops):
    op = g.choice(label, ops)
    if op == 'disable':
        CACHES.cache_disable()
    elif op == 'enable':
        CACHES.cache_enable()
    elif op == 'clear':
        CACHES.cache_clear()
        g.check(all([info.currsize == 0 for info in CACHES.cache_info().values()]), 'cleared')
    elif op == 'clear schemas':
        marsh.schema.UnmarshalSchema.cache_clear()
    elif op == 'info':
        infos = list(CACHES.cache_info().values()) + list(marsh.schema.UnmarshalSchema.cache_info().values())
        g.check(all([i.hits >= 0 and i.misses >= 0 and i.currsize >= 0 for i in infos]), 'counts')
    return op


def use(g, which, steps, ops, **cfg):
    """Types used after each other, with the caches changed in between."""
    reset()
    pool = c28.POOLS[which]
    try:
        off = False
        for i in range(steps):
            op = operate(g, f'op{i}', ops)
            off = op == 'disable' or off and op != 'enable'
            before = {k: (v.hits, v.misses, v.currsize) for k, v in CACHES.cache_info().items()}
            d = pool[g.choice(f'type{i}', tuple(range(len(pool))))]
            F.agree(g, d, d.gen(g, f'e{i}', dict(cfg, faults=1 if i + 1 == steps else 0)))
            if off:
                after = {k: (v.hits, v.misses, v.currsize) for k, v in CACHES.cache_info().items()}
                g.check(before == after, 'switched off')
    finally:
        CACHES.cache_enable()


def spaces(g, steps, ops):
    """Components are found as registered, whatever happens to the caches."""
    reset()
    ns = marsh.namespaces.new('first', base=c27.Base)
    have = {}
    try:
        for i in range(steps):
            operate(g, f'op{i}', ops)
            what = g.choice(f'what{i}', ('register', 'remove', 'find', 'build'))
            name = g.choice(f'name{i}', ('a', 'b'))
            cls = c27.A if name == 'a' else c27.B
            if what == 'register':
                ns.register(cls, name=name, replace=name in have)
                have[name] = cls
            elif what == 'remove':
                del marsh.namespaces['first']
                ns = marsh.namespaces.new('first', base=c27.Base)
                have = {}
            elif what == 'find':
                g.check(marsh.namespaces.find_class(cls) == (name if name in have else None), 'name')
                got = sorted([n for n, _ in marsh.namespaces.find_subclasses(c27.Base)])
                g.check(got == sorted(have), 'subclasses')
            else:
                x = g.int(f'x{i}')
                try:
                    got = marsh.unmarshal(c27.Base, {'name': name, 'x': x})
                except marsh.errors.MarshError:
                    got = None
                if name in have:
                    g.check(type(got) is cls, 'component')
                    g.check(got is not None and got.x == x, 'field')
                elif have:
                    g.check(got is None, 'refused')
    finally:
        CACHES.cache_enable()


OPS = ('add', 'use', 'clear', 'disable', 'enable')
ALL = ('nothing', 'disable', 'enable', 'clear', 'clear schemas', 'info')
QUICK = ('nothing', 'disable', 'clear schemas', 'info')
SMALL = dict(c28.CFG, faults=0)
WHICH = ('union_order', 'list_order', 'literals', 'enums', 'twins', 'annotated', 'optionals', 'calls')
HARNESSES = [
    Harness(pools, dict(n=3, name=1, ops=OPS, kinds=('callable', 'value')),
            dict(n=4, name=1, ops=OPS, kinds=('callable', 'value'))),
    Harness(pools, dict(n=4, name=1, ops=('use', 'one', 'clear one', 'disable'), kinds=('callable', 'bound', 'value')),
            dict(n=5, name=1, ops=('use', 'one', 'clear one', 'disable'), kinds=('callable', 'bound', 'value')), name='pools_one'),
]
HARNESSES += [Harness(use, dict(SMALL, which=w, steps=2, ops=QUICK), dict(SMALL, which=w, steps=2, ops=ALL), name='use_' + w)
              for w in WHICH]
HARNESSES.append(Harness(spaces, dict(steps=3, ops=('nothing', 'disable', 'clear')), dict(steps=3, ops=ALL)))
