"""C32: an iterable made from an iterator gives every reader every item."""
from marsh.utils import IterableFromIterator
from symx.base import Harness

END = object()


def drain(r):
    try:
        return next(r)
    except StopIteration:
        return END


def make(g, items, source, pulled):
    if source == 'generator':
        def gen():
            for x in items:
                pulled.append(x)
                yield x
        return gen()

    class Source:
        """An iterator that fails when it is asked again after its end."""

        def __init__(self):
            self.at = 0
            self.ended = False

        def __iter__(self):
            return self

        def __next__(self):
            if self.at < len(items):
                self.at += 1
                pulled.append(items[self.at - 1])
                return items[self.at - 1]
            self.ended = True
            raise StopIteration
    return Source()


def interleaved(g, size, readers, steps, source):
    """Any interleaving of readers, also ones that start late."""
    n = g.choice('size', tuple(range(size + 1)))
    items, pulled = [g.int(f'x{i}') for i in range(n)], []
    it = IterableFromIterator(make(g, items, source, pulled))
    open_, at, furthest = [], [], 0
    for s in range(steps):
        ops = ['new'] if len(open_) < readers else []
        ops += ['bool'] + [f'next{i}' for i in range(len(open_))]
        op = g.choice(f'op{s}', tuple(ops))
        if op == 'new':
            open_.append(iter(it))
            at.append(0)
        elif op == 'bool':
            g.check(bool(it) is (n > 0), 'truth')
            furthest = max(furthest, min(1, n))
        else:
            i = int(op[4:])
            x = drain(open_[i])
            if at[i] < n:
                g.check(x is not END, 'every item')
                if x is not END:
                    g.check(g.same(x, items[at[i]]), 'in order')
                at[i] += 1
                furthest = max(furthest, at[i])
            else:
                g.check(x is END, 'ends')
        g.check(len(pulled) <= furthest, 'lazy')
    for i, r in enumerate(open_):
        rest = [x for x in r]
        g.check(len(rest) == n - at[i], 'every item')
        g.check(g.same(rest, items[at[i]:]), 'in order')
    g.check(g.same(list(it), items), 'again')
    g.check(len(pulled) == n, 'each item taken once')


def nested(g, size, depth):
    """Loops inside loops over the same iterable."""
    n = g.choice('size', tuple(range(size + 1)))
    items, pulled = [g.int(f'x{i}') for i in range(n)], []
    it = IterableFromIterator(make(g, items, g.choice('source', ('generator', 'object')), pulled))
    stop = g.choice('stop', tuple(range(n + 1)))      # the inner loop may be left early
    outer = []
    for x in it:
        outer.append(x)
        inner = []
        for y in it:
            if len(inner) == stop:
                break
            inner.append(y)
            if depth > 2:
                g.check(g.same([z for z in it], items), 'in order')
        g.check(g.same(inner, items[:stop]), 'in order')
    g.check(g.same(outer, items), 'in order')
    g.check(len(pulled) == n, 'each item taken once')


HARNESSES = [
    Harness(interleaved, dict(size=2, readers=2, steps=6, source='generator'), dict(size=3, readers=3, steps=8, source='generator'), name='generator'),
    Harness(interleaved, dict(size=2, readers=2, steps=5, source='object'), dict(size=3, readers=2, steps=8, source='object'), name='object'),
    Harness(interleaved, dict(size=1, readers=3, steps=6, source='generator'), dict(size=1, readers=3, steps=8, source='object'), name='three'),
    Harness(nested, dict(size=3, depth=2), dict(size=4, depth=3)),
]
