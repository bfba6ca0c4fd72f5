"""C29: a priority order keeps every value where its priorities put it."""
from marsh.utils import PriorityOrder
from symx.base import Harness

NAMES = ('a', 'b', 'c', 'd')


class Value:
    """Registered values are classes in marsh: hashable and only equal to themselves."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


class Entry:
    def __init__(self, value, priority, lower, higher):
        self.value, self.priority, self.lower, self.higher = value, priority, lower, higher

    def before(self, other):
        """The relative priorities put self in front of other."""
        return other.value in self.lower or self.value in other.higher


def relatives(g, name, others, values, spelled):
    """Relative priorities towards any subset of the values, and how they are spelled."""
    lower, higher = [], []
    for o in others:
        k = g.choice(f'{name}.{o}', ('none', 'lower', 'higher'))
        if k == 'lower':
            lower.append(values[o])
        elif k == 'higher':
            higher.append(values[o])
    how = g.choice(f'{name}.spelled', tuple(spelled)) if lower or higher else 'values'

    def spell(v):
        if how == 'hashes':
            return [hash(x) for x in v]
        if how == 'plain' and len(v) == 1:
            return v[0]
        if how == 'set':
            return set(v)
        return tuple(v) if v else None
    return lower, higher, spell(lower), spell(higher)


def related(a, b):
    return a.before(b) or b.before(a)


def placed(g, old, new, w):
    """new is old with w inserted where its priorities put it."""
    g.check(new.count(w) == 1, 'present once')
    if new.count(w) != 1:
        return
    at = new.index(w)
    g.check(new[:at] + new[at + 1:] == old, 'others keep their order')
    ahead = [i for i, e in enumerate(old) if e.before(w)]
    behind = [i for i, e in enumerate(old) if w.before(e)]
    if not (ahead and behind and max(ahead) > min(behind)):
        for i in ahead:
            g.check(new.index(old[i]) < at, 'relative')
    for i in behind:
        g.check(new.index(old[i]) > at, 'relative')
    limit = min(behind) if behind else len(old)
    for i in range(at, limit):
        g.check(g.Not(old[i].priority > w.priority), 'base')
    if at:
        e = old[at - 1]
        g.check(g.Or(e.before(w), e.priority > w.priority), 'as far ahead as allowed')


def order(po, entries):
    by = dict([(id(e.value), e) for e in entries])
    return [by[id(v)] for v in po]


def circular(entries, w):
    return any([e.before(w) and w.before(e) for e in entries])


def insert(g, po, entries, w, lower, higher, replace=False, decorate=False):
    """Adds w, checks its place; returns the entries in the order of addition."""
    kept = [e for e in entries if e.value is not w.value]
    old = order(po, entries)
    exists = len(kept) < len(entries)
    try:
        if decorate:
            r = po.add(priority=w.priority, lower_priority=lower, higher_priority=higher, replace=replace)(w.value)
        else:
            r = po.add(w.value, priority=w.priority, lower_priority=lower, higher_priority=higher, replace=replace)
    except ValueError:
        g.check((exists and not replace) or circular(kept, w), 'refused only when it has to')
        g.check(order(po, entries) == old, 'refused additions change nothing')
        return entries
    g.check(r is w.value, 'returned')
    g.check(not (exists and not replace), 'duplicates refused')
    g.check(not circular(kept, w), 'circular refused')
    entries = kept + [w]
    placed(g, [e for e in old if e.value is not w.value], order(po, entries), w)
    return entries


def build(g, n, spelled, pick=None):
    values = {x: Value(x) for x in NAMES[:n]}
    po, entries = PriorityOrder(), []
    for x in NAMES[:n]:
        others = [o for o in NAMES[:n] if o != x and (pick is None or x + o in pick)]
        lower, higher, low, high = relatives(g, x, others, values, spelled)
        w = Entry(values[x], g.int(x + '.priority'), lower, higher)
        entries = insert(g, po, entries, w, low, high)
    return values, po, entries


def added(g, n, spelled, pick):
    values, po, entries = build(g, n, spelled, pick)
    g.check(len(po) == len(entries), 'length')
    now = order(po, entries)
    for i, e in enumerate(now):
        g.check(po[i] is e.value, 'indexed')
        g.check(po.index(e.value) == i, 'indexed')
        g.check(e.value in po, 'contains')
    if not any([related(a, b) for a in now for b in now if a is not b]):
        for a, b in zip(now, now[1:]):
            g.check(g.Not(a.priority < b.priority), 'descending')
            if entries.index(a) < entries.index(b):
                g.check(g.Not(a.priority == b.priority), 'latest first')


def rebuilt(entries):
    """The order the entries get when they are added anew."""
    po = PriorityOrder()
    for e in entries:
        po.add(e.value, priority=e.priority, lower_priority=tuple(e.lower) or None, higher_priority=tuple(e.higher) or None)
    return order(po, entries)


def removed(g, n, spelled, pick, slices):
    """Deleting values leaves the order of the values that are left."""
    values, po, entries = build(g, n, spelled, pick)
    g.assume(len(entries) == n)
    old = order(po, entries)
    if slices:
        index = slice(g.choice('from', (None, 0, 1, -1)), g.choice('to', (None, 1, 2, -1)), g.choice('step', (None, -1)))
    else:
        index = g.choice('index', tuple(range(-n, n)))
    gone = old[index] if slices else [old[index]]
    if slices:
        part = po[index]
        g.check(order(part, entries) == gone, 'slice')
    del po[index]
    left = [e for e in entries if e not in gone]
    g.check(len(po) == len(left), 'length')
    if any([related(a, b) for a in left for b in gone]):
        g.check(order(po, left) == rebuilt(left), 'recalculated')
    else:
        g.check(order(po, left) == [e for e in old if e not in gone], 'others keep their order')
    w = Entry(Value('new'), g.int('new.priority'), [], [])
    left = insert(g, po, left, w, None, None)
    w = Entry(gone[0].value, g.int('again.priority'), gone[0].lower, gone[0].higher) if gone else None
    if w is not None:
        insert(g, po, left, w, tuple(w.lower), tuple(w.higher))


def again(g, n, spelled, pick):
    """Adding a value that is there: refused, or replaced when asked to."""
    values, po, entries = build(g, n, spelled, pick)
    x = g.choice('again', NAMES[:n])
    lower, higher, low, high = relatives(g, 'again', [o for o in NAMES[:n] if o != x], values, spelled)
    w = Entry(values[x], g.int('again.priority'), lower, higher)
    insert(g, po, entries, w, low, high, replace=g.choice('replace', (True, False)), decorate=g.choice('decorate', (True, False)))


ALL = ('values', 'hashes', 'plain', 'set')
CHAIN = ('ab', 'cb', 'ca', 'dc')
HARNESSES = [
    Harness(added, dict(n=3, spelled=('plain',), pick=None), dict(n=3, spelled=ALL, pick=None), name='relative'),
    Harness(added, dict(n=4, spelled=ALL, pick=()), dict(n=4, spelled=('values',), pick=None), name='base'),
    Harness(added, dict(n=4, spelled=('values',), pick=CHAIN), dict(n=4, spelled=ALL, pick=CHAIN), name='chain'),
    Harness(removed, dict(n=3, spelled=('values',), pick=('ab', 'cb', 'ca'), slices=False), dict(n=3, spelled=('values', 'hashes'), pick=None, slices=False), name='delete'),
    Harness(removed, dict(n=3, spelled=('hashes',), pick=('ba', 'ca'), slices=True), dict(n=4, spelled=('values',), pick=CHAIN, slices=True), name='delete_slice'),
    Harness(again, dict(n=2, spelled=('values',), pick=None), dict(n=3, spelled=('values',), pick=None)),
]
