"""C55: namespaces and their components are mappings of what was added and not removed since, in that order."""
import dataclasses
from typing import Any

import marsh
from symx.base import Harness

NS = marsh.namespaces


@dataclasses.dataclass
class Base:
    x: int = 0


@dataclasses.dataclass
class A(Base):
    pass


@dataclasses.dataclass
class B(Base):
    pass


class Other:
    pass


# the caches by name, which every namespace adds to
POOL = [(held, dict(held)) for held in vars(marsh.schema.caches).values() if isinstance(held, dict)]


def reset():
    """Without comparing names: those of an earlier run are no values of this one."""
    for held in list(vars(NS).values()):
        if isinstance(held, dict):
            held.clear()
    for held, first in POOL:
        held.clear()
        held.update(first)
    for name in list(NS):
        del NS[name]
    NS.cache_clear(full=True)
    marsh.schema.UnmarshalSchema.cache_clear()


def agree(g, got, model, value, q, default):
    """The mapping `got` is the list of pairs `model`, also for the key q."""
    g.check(len(got) == len(model), 'length')
    g.check(g.same([k for k in got], [k for k, _ in model]), 'keys in order')
    g.check(g.same(list(got.keys()), [k for k, _ in model]), 'keys')
    values = list(got.values())
    g.check(len(values) == len(model), 'values')
    for x, (_, y) in zip(values, model):
        g.check(value(x) is y, 'values in order')
    items = list(got.items())
    g.check(len(items) == len(model), 'items')
    for (k, x), (n, y) in zip(items, model):
        g.check(g.same(k, n) and value(x) is y, 'items in order')
    found = [y for k, y in model if k == q]
    g.check((q in got) == bool(found), 'contains')
    g.check((q in got.keys()) == bool(found), 'contains')
    g.check(g.Or(bool(got), len(model) == 0), 'truth')
    x = got.get(q, default)
    y = got.get(q)
    if found:
        g.cover('found')
        g.check(value(x) is found[0] and value(y) is found[0], 'get')
    else:
        g.cover('not found')
        g.check(x is default and y is None, 'get with a default')
    try:
        z = got[q]
        g.check(bool(found) and value(z) is found[0], 'item')
    except KeyError:
        g.check(not found, 'item')


class Default:
    pass


DEFAULT = Default()


def spaces(g, n, names):
    """Namespaces added and removed by any names."""
    reset()
    model = []
    q = g.str('q', names, 1)
    for i in range(n):
        op = g.choice(f'op{i}', ('new', 'delete'))
        name = g.str(f'name{i}', names, 1)
        known = [p for p in model if p[0] == name]
        if op == 'new':
            base = g.choice(f'base{i}', (Base, Other))
            try:
                ns = NS.new(name, base)
                g.check(not known, 'the name is taken')
                g.check(g.same(ns.name, name) and ns.base is base and len(ns) == 0, 'a new namespace is empty')
                model.append((name, ns))
                if base is Base:
                    ns.register(A, name='a')
            except marsh.errors.MarshError:
                g.check(bool(known), 'the name is free')
        else:
            try:
                del NS[name]
                g.check(bool(known), 'the name is known')
                model.remove(known[0])
            except KeyError:
                g.check(not known, 'the name is known')
        agree(g, NS, model, lambda x: x, q, DEFAULT)
        g.check(NS == NS and not (NS != NS), 'itself')
        g.check(type(NS)() is NS, 'there is only one')
        g.check(not (NS == dict(NS.items())), 'only equal to namespaces')
        info = NS.cache_info(full=True)
        g.check(sorted(info) == ['find_class', 'find_namespaces', 'find_subclasses', 'names'], 'every cache is listed')
        g.check(g.same(list(info['names']), [k for k, _ in model]), 'every namespace is listed')


def components(g, n, names, more=True):
    """Components registered and replaced by any names; those of another namespace stay as they are."""
    reset()
    ns, other = NS.new('ns', Base), NS.new('other', Base)
    other.register(B, name='b')
    model = []
    q = g.str('q', names, 1)
    for i in range(n):
        name = g.str(f'name{i}', names, 1)
        cls = g.choice(f'class{i}', (A, B, Other) if more else (A, B))
        rep = g.choice(f'replace{i}', (False, True))
        known = [p for p in model if p[0] == name]
        try:
            if g.choice(f'form{i}', ('call', 'decorator') if more else ('call',)) == 'call':
                got = ns.register(cls, name=name, replace=rep)
            else:
                got = ns.register(name=name, replace=rep)(cls)
            g.check(got is cls and cls is not Other, 'only subclasses')
            g.check(rep or not known, 'the name is taken')
            if known:
                model[model.index(known[0])] = (known[0][0], cls)
            else:
                model.append((name, cls))
        except marsh.errors.MarshError:
            g.check(bool(known) and not rep, 'the name is free')
        except ValueError:
            g.check(cls is Other, 'only subclasses')
        agree(g, ns, model, lambda s: None if s is None else s.value, q, DEFAULT)
        agree(g, ns.components, model, lambda c: c, q, DEFAULT)
        agree(g, other, [('b', B)], lambda s: None if s is None else s.value, q, DEFAULT)
        g.check(list(NS) == ['ns', 'other'], 'namespaces')


def forgotten(g, names):
    """A namespace that was deleted keeps its components, and the next of its name has none of them."""
    reset()
    name, a, q = g.str('name', names, 1), g.str('a', names, 1), g.str('q', names, 1)
    old = NS.new(name, Base)
    old.register(A, name=a)
    looked = g.choice('looked up', (False, True))
    if looked:
        g.check(NS.find_class(A) == a, 'found')
    del NS[name]
    g.check(NS.get(name) is None and NS.find_class(A) is None, 'deleted')
    g.check(not list(NS.find_subclasses(Base)) and not list(NS.find_namespaces(A)), 'deleted')
    new = NS.new(name, Base)
    g.check(new is not old and NS[name] is new, 'another namespace')
    agree(g, new, [], lambda s: s, q, DEFAULT)
    agree(g, old, [(a, A)], lambda s: None if s is None else s.value, q, DEFAULT)
    b = g.str('b', names, 1)
    new.register(B, name=b)
    g.check(NS.find_class(A) is None, 'not of the new one')
    g.check(g.same(NS.find_class(B), b), 'of the new one')
    agree(g, new, [(b, B)], lambda s: None if s is None else s.value, q, DEFAULT)
    agree(g, old, [(a, A)], lambda s: None if s is None else s.value, q, DEFAULT)


HARNESSES = [
    Harness(spaces, dict(n=3, names=2), dict(n=4, names=2)),
    Harness(components, dict(n=2, names=2), dict(n=3, names=2)),
    Harness(components, dict(n=3, names=2, more=False), dict(n=4, names=2, more=False), name='components_more'),
    Harness(forgotten, dict(names=2), dict(names=4)),
]
