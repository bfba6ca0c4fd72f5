"""C27: namespaces always resolve to the components registered at the moment."""
import dataclasses
from typing import Any, Dict, List, Optional, Union

import marsh
from symx.base import Harness


@dataclasses.dataclass
class Base:
    x: int = 0


@dataclasses.dataclass
class A(Base):
    pass


@dataclasses.dataclass
class B(Base):
    y: int = 5


@dataclasses.dataclass
class C(A):
    pass


@dataclasses.dataclass
class Other:
    x: int = 0


@dataclasses.dataclass
class Holder:
    b: Base
    a: Optional[A] = None


def again():
    @dataclasses.dataclass
    class A(Base):
        pass
    A.__qualname__ = 'A'
    return A


CLASSES = {'Again': again(), 'Base': Base, 'A': A, 'B': B, 'C': C, 'Other': Other}
NS = marsh.namespaces


def reset():
    for name in list(NS):
        del NS[name]


class Model:
    """Namespaces as lists: [name, base, [(component name, class)]]"""

    def __init__(self):
        self.spaces = []

    def get(self, name):
        for s in self.spaces:
            if s[0] == name:
                return s
        return None

    def name_of(self, cls):
        for s in self.spaces[::-1]:
            if issubclass(cls, s[1]):
                for n, c in s[2]:
                    if c is cls:
                        return n
        return None

    def subclasses(self, cls):
        return [(n, s[0]) for s in self.spaces for n, c in s[2] if issubclass(c, cls)]

    def over(self, cls):
        return [s[0] for s in self.spaces if issubclass(cls, s[1])]

    def component(self, cls, name):
        """The class built for a name when cls is asked for."""
        for s in self.spaces:
            for n, c in s[2]:
                if issubclass(c, cls) and n == name:
                    return c
        return None


def lookups(g, model, classes):
    g.check(list(NS) == [s[0] for s in model.spaces], 'namespaces')
    g.check(len(NS) == len(model.spaces), 'namespaces')
    for s in model.spaces:
        ns = NS[s[0]]
        g.check(ns.base is s[1], 'base')
        got = list(ns)
        g.check(len(got) == len(s[2]), 'components')
        for k, (n, c) in zip(got, s[2]):
            g.check(k == n, 'components')
            g.check(ns.components[k] is c, 'components')
        for cls in classes:
            names = list(ns.find_subclasses(cls))
            want = [n for n, c in s[2] if issubclass(c, cls)]
            g.check(g.same(names, want), 'find_subclasses')
    for cls in classes:
        got = NS.find_class(cls)
        want = model.name_of(cls)
        g.check((got is None) == (want is None), 'find_class')
        if want is not None and got is not None:
            g.check(got == want, 'find_class')
        pairs = [(n, s.name) for n, s in NS.find_subclasses(cls)]
        g.check(g.same(pairs, model.subclasses(cls)), 'find_subclasses')
        g.check([s.name for s in NS.find_namespaces(cls)] == model.over(cls), 'find_namespaces')


def built(g, model, cls, name, x, wrap):
    """Unmarshals {'name': name, 'x': x} as cls within a type."""
    e = {'name': name, 'x': x}
    e, t = {'plain': (e, cls), 'list': ([e], List[cls]), 'dict': ({'k': e}, Dict[str, cls]),
            'union': (e, Union[cls, None]), 'held': ({'b': e}, Holder)}[wrap]
    try:
        r = marsh.unmarshal(t, e)
    except marsh.errors.UnmarshalError:
        return None
    return {'plain': lambda: r, 'list': lambda: r[0], 'dict': lambda: r['k'], 'union': lambda: r, 'held': lambda: r.b}[wrap]()


def resolve(g, model, asked, wraps, name, x):
    for t in asked:
        cls = CLASSES[t]
        for wrap in wraps:
            if wrap == 'held' and cls is not Base:
                continue
            r = built(g, model, cls, name, x, wrap)
            if not model.over(cls):
                g.check(r is None, 'a name needs a namespace')     # dataclasses refuse the extra field
                continue
            c = model.component(cls, name)
            g.check((r is None) == (c is None), 'resolved')
            if r is not None and c is not None:
                g.check(type(r) is c, 'class')
                g.check(g.same(r.x, x), 'fields')


def marshaled(g, model, classes, x):
    for cls in classes:
        e = marsh.marshal([cls(x)])[0]
        want = model.name_of(cls)
        g.check(('name' in e) == (want is not None), 'marshaled name')
        if 'name' in e and want is not None:
            g.check(e['name'] == want, 'marshaled name')
        g.check(g.same(e['x'], x), 'marshaled fields')
        if want is not None and model.component(cls, want) is cls:
            r = marsh.unmarshal(cls, e)
            g.check(type(r) is cls, 'round trip')


def step(g, i, model, ops, spaces, bases, registered, names, replace, forms):
    op = g.choice(f'op{i}', tuple(ops))
    if op == 'new':
        n = g.choice(f'ns{i}', tuple(spaces))
        base = CLASSES[g.choice(f'base{i}', tuple(bases))]
        try:
            ns = NS.new(n, base)
            g.check(model.get(n) is None, 'new')
            g.check(ns is NS[n], 'new')
            model.spaces.append([n, base, []])
        except marsh.errors.MarshError:
            g.check(model.get(n) is not None, 'new')
        return
    if op == 'delete':
        n = g.choice(f'ns{i}', tuple(spaces))
        try:
            del NS[n]
            g.check(model.get(n) is not None, 'deleted')
            model.spaces.remove(model.get(n))
        except KeyError:
            g.check(model.get(n) is None, 'deleted')
        return
    s = g.choice(f'ns{i}', tuple(spaces))
    entry = model.get(s)
    g.assume(entry is not None)
    cls = CLASSES[g.choice(f'class{i}', tuple(registered))]
    name = g.str(f'name{i}', names, 1)
    g.assume(name != '???')        # the missing marker
    rep = g.choice(f'replace{i}', tuple(replace))
    form = g.choice(f'form{i}', tuple(forms))
    known = [c for c in entry[2] if c[0] == name]
    try:
        if form == 'call':
            r = NS[s].register(cls, name=name, replace=rep)
        else:
            r = NS[s].register(name=name, replace=rep)(cls)
        g.check(r is cls, 'returned')
        g.check(issubclass(cls, entry[1]), 'only subclasses')
        g.check(rep or not known, 'unique names')
        if known:
            entry[2][entry[2].index(known[0])] = (known[0][0], cls)
        else:
            entry[2].append((name, cls))
    except marsh.errors.MarshError:
        g.check(bool(known) and not rep, 'unique names')
    except ValueError:
        g.check(not issubclass(cls, entry[1]), 'only subclasses')


def history(g, n, ops, spaces, bases, registered, names, replace, forms, asked, wraps, scaffold, looking):
    reset()
    model = Model()
    classes = [CLASSES[c] for c in asked]
    x = g.int('x')
    for s, base in scaffold:
        NS.new(s, CLASSES[base])
        model.spaces.append([s, CLASSES[base], []])
    q = g.str('q', names, 1)
    g.assume(q != '???')
    for i in range(n):
        step(g, i, model, ops, spaces, bases, registered, names, replace, forms)
        lookups(g, model, classes)
        if looking == 'names':
            for s in model.spaces:
                for name, _ in s[2]:
                    resolve(g, model, asked, wraps, name, x)
            resolve(g, model, asked, wraps, 'not there', x)
        else:
            marshaled(g, model, [c for c in classes], x)
    if looking == 'names':
        resolve(g, model, asked, wraps, q, x)


def early(g, names):
    """Decorators made before a name is taken do not take it a second time."""
    reset()
    ns = NS.new('p', Base)
    a, b = g.str('a', names, 1), g.str('b', names, 1)
    rep = g.choice('replace', (False, True))
    first, second = ns.register(name=a), ns.register(name=b, replace=rep)
    first(A)
    try:
        second(B)
        g.check(rep or not a == b, 'unique names')
    except marsh.errors.MarshError:
        g.check(not rep and a == b, 'unique names')
        g.check(ns.components[a] is A, 'kept')


def invariant(g):
    """Without a name the type itself is built; unregistered subclasses can be asked for."""
    reset()
    ns = NS.new('p', Base)
    x = g.int('x')
    r = marsh.unmarshal(Base, {'x': x})
    g.check(type(r) is Base, 'itself')
    name = g.str('name', 2, 1)
    ns.register(C, name=name)
    for cls in (Base, A, C):
        r = marsh.unmarshal(cls, {'x': x})
        g.check(type(r) is cls, 'itself')
        g.check(g.same(r.x, x), 'fields')
        r = marsh.unmarshal(cls, {'x': x, 'name': name})
        g.check(type(r) is C, 'named')
    r = marsh.unmarshal(Base, {})
    g.check(type(r) is Base, 'itself')
    r = ns.build({'x': x}, name=name)
    g.check(type(r) is C, 'build')
    r = ns.build(name=name, x=x)
    g.check(g.same(r.x, x), 'build')
    try:
        ns.build({'x': x}, name=name + '!')
        g.check(False, 'unknown')
    except marsh.errors.UnmarshalError:
        g.check(True, 'unknown')
    r = ns[name].unmarshal({'x': x})
    g.check(type(r) is C, 'schema')


@dataclasses.dataclass
class Bare:
    pass


@dataclasses.dataclass
class Labelled(Bare):
    name: Any = ''
    x: int = 3


class Parent:
    pass


class Row(Parent):
    def __init__(self, *rest: int):
        self.rest = rest


class Keyed(Parent):
    def __init__(self, a: int = 1, **kw: int):
        self.a, self.kw = a, kw


def odd(g, names):
    """Components without fields, with a field called name; names that are no names."""
    reset()
    ns = NS.new('p', Bare)
    name, other = g.str('name', names, 1), g.str('other', names, 1)
    g.assume(g.And(name != '???', other != '???', name != other))
    ns.register(Bare, name=name)
    ns.register(Labelled, name=other)
    v = g.choice('v', ('bare', 'many', 'label'))
    if v == 'bare':
        e = marsh.marshal(Bare())
        g.check(type(e) is dict and len(e) == 1 and 'name' in e, 'marshaled')
        g.check(e['name'] == name, 'marshaled name')
        g.check(type(marsh.unmarshal(Bare, e)) is Bare, 'round trip')
    elif v == 'many':
        e = marsh.marshal({'k': (Bare(), Bare())})
        g.check(e['k'][0] == {'name': name} and e['k'][1] == {'name': name}, 'marshaled name')
    else:
        label = g.choice('label', ('', None, 0, False, 'text', ()))
        try:
            marsh.marshal(Labelled(label))
            g.fail('a field called name is written')
        except marsh.errors.MarshalError:
            pass
    wrong = g.choice('wrong', ('', None, 0, False, (), [], {}, 'absent!', 1.5))
    try:
        marsh.unmarshal(Bare, {'name': wrong})
        g.fail('a name that is no name is resolved')
    except marsh.errors.UnmarshalError as err:
        g.check(err.path == 'name', 'path')


def gone(g, names):
    """Without its namespace a component is a class like any other."""
    reset()
    name = g.str('name', names, 1)
    g.assume(name != '???')
    order = g.choice('order', ('p', 'pq', 'qp'))
    spaces = {}
    for n in order:
        spaces[n] = NS.new(n, Bare if n == 'p' else Labelled)
    used = g.choice('used', (False, True))
    if used:
        g.check(type(marsh.unmarshal(Labelled, {})) is Labelled, 'before')
    spaces['p'].register(Labelled, name=name)
    if used:
        g.check(type(marsh.unmarshal(Bare, {'name': name})) is Labelled, 'registered')
        g.check(type(marsh.unmarshal(List[Labelled], [{'name': name}])[0]) is Labelled, 'registered')
    for n in order:
        del NS[n]
    g.check(len(NS) == 0, 'deleted')
    r = marsh.unmarshal(Labelled, {'name': name, 'x': 5})
    g.check(type(r) is Labelled and g.same([r.name, r.x], [name, 5]), 'a field like any other')
    r = marsh.unmarshal(List[Labelled], [{'name': name}])[0]
    g.check(type(r) is Labelled and g.same(r.name, name), 'a field like any other')
    e = marsh.marshal(r)
    g.check(g.same(e['name'], name), 'written like any other')
    again = NS.new('p', Bare)
    g.check(len(again) == 0, 'a namespace starts empty')
    try:
        marsh.unmarshal(Bare, {'name': name})
        g.fail('a component of a deleted namespace is found')
    except marsh.errors.UnmarshalError:
        pass


def builds(g, names, n):
    """Arguments of build extend the element it is given, which stays as it is."""
    reset()
    ns = NS.new('p', Parent)
    rows, keyed = g.str('rows', names, 1), g.str('keyed', names, 1)
    g.assume(rows != keyed)
    ns.register(Row, name=rows)
    ns.register(Keyed, name=keyed)
    kind = g.choice('kind', ('row', 'keyed'))
    if kind == 'row':
        have = [g.int(f'h{i}') for i in range(g.choice('have', tuple(range(n + 1))))]
        more = [g.int(f'm{i}') for i in range(g.choice('more', tuple(range(n + 1))))]
        form = g.choice('form', ('list', 'tuple', 'none', 'missing', 'map'))
        e = {'list': list(have), 'tuple': tuple(have), 'none': None, 'missing': marsh.MISSING, 'map': {'a': 1}}[form]
        if form in ('none', 'missing', 'map'):
            g.assume(len(more) > 0 and not have)
        try:
            r = ns.build(e, *more, name=rows)
        except TypeError:
            g.check(form == 'map', 'accepted')
            return
        g.check(form != 'map', 'refused')
        g.check(type(r) is Row, 'class')
        g.check(g.same(tuple(r.rest), tuple(have + more)), 'items')
        if form == 'list':
            g.check(g.same(e, have), 'element unchanged')
        try:
            ns.build(e, 1, name=rows, a=1)
            g.fail('both kinds of arguments')
        except TypeError:
            pass
        return
    keys = ('a', 'b', 'c')
    have = {k: g.int('h' + k) for k in keys[:2] if g.choice('has ' + k, (False, True))}
    more = {k: g.int('m' + k) for k in keys[1:] if g.choice('gets ' + k, (False, True))}
    if g.choice('twice', (False, True)):
        more['a'] = g.int('ma')
    form = g.choice('form', ('map', 'none', 'missing', 'seq'))
    e = {'map': dict(have), 'none': None, 'missing': marsh.MISSING, 'seq': (1,)}[form]
    if form != 'map':
        g.assume(len(more) > 0 and not have)
    try:
        r = ns.build(e, name=keyed, **more)
    except TypeError:
        g.check(form == 'seq', 'accepted')
        return
    g.check(form != 'seq', 'refused')
    g.check(type(r) is Keyed, 'class')
    want = dict(have)
    want.update(more)
    a = want.pop('a', 1)
    g.check(g.same(r.a, a), 'fields')
    g.check(len(r.kw) == len(want), 'fields')
    for k, v in want.items():
        g.check(k in r.kw and g.same(r.kw[k], v), 'fields')
    if form == 'map':
        g.check(g.same(e, have), 'element unchanged')


REG = dict(n=2, ops=('register',), spaces=('p',), bases=('Base',), registered=('A', 'Again', 'C'), names=2, replace=(False, True),
           forms=('call',), asked=('Base', 'A'), wraps=('plain', 'list'), scaffold=(('p', 'Base'),), looking='names')
HARNESSES = [
    Harness(history, REG, dict(REG, n=3, names=3), name='register'),
    Harness(history, dict(REG, looking='marshal', asked=('Base', 'A', 'C')), dict(REG, n=3, looking='marshal', asked=('Base', 'A', 'C')), name='marshal'),
    Harness(history, dict(REG, registered=('B',), replace=(False, True), forms=('call', 'decorate'), wraps=('dict', 'union', 'held')),
            dict(REG, n=3, registered=('B', 'C'), forms=('call', 'decorate'), wraps=('dict', 'union', 'held')), name='within'),
    Harness(history, dict(REG, n=2, spaces=('p', 'q'), scaffold=(('p', 'Base'), ('q', 'A')), registered=('A', 'B'), replace=(False,)),
            dict(REG, n=3, spaces=('p', 'q'), scaffold=(('p', 'Base'), ('q', 'A')), registered=('A', 'C')), name='two'),
    Harness(history, dict(REG, n=3, ops=('new', 'delete', 'register'), spaces=('p',), bases=('Base', 'A'), registered=('A',), replace=(True,), scaffold=()),
            dict(REG, n=4, ops=('new', 'delete', 'register'), spaces=('p', 'q'), bases=('Base', 'A'), registered=('A',), replace=(True,), scaffold=()), name='spaces'),
    Harness(history, dict(REG, n=2, registered=('A', 'B', 'Other'), ops=('new', 'delete', 'register'), looking='marshal', replace=(False,)),
            dict(REG, n=3, registered=('A', 'Other'), ops=('new', 'delete', 'register'), spaces=('p', 'q'), looking='marshal', replace=(False,)), name='spaces_marshal'),
    Harness(early, dict(names=2), dict(names=4)),
    Harness(invariant, {}, {}),
    Harness(odd, dict(names=2), dict(names=4)),
    Harness(gone, dict(names=2), dict(names=3)),
    Harness(builds, dict(names=1, n=2), dict(names=1, n=3)),
]
