"""C44: schemas of the user are used for exactly what they match, everywhere, from the moment they are registered."""
import dataclasses
from typing import Dict, List, NamedTuple, Optional, Tuple, Union

import marsh
from symx.base import Harness

REG = marsh.schema.UnmarshalSchema.registry
OUT = marsh.schema.MarshalSchema.registry
OURS = []


class Plain:
    def __init__(self, n: int = 3):
        self.n = n


class Sub(Plain):
    pass


@dataclasses.dataclass
class Holder:
    p: Plain
    q: Optional[Sub] = None


@dataclasses.dataclass
class Component:
    p: Plain


class Pair(NamedTuple):
    p: Plain
    s: Sub


class Got:
    """What a schema of the user made of an element."""

    def __init__(self, number, value):
        self.number, self.value = number, value


def drop(registry):
    for s in OURS:
        if s in list(registry.priority):
            del registry.priority[list(registry.priority).index(s)]


def reset():
    drop(REG)
    drop(OUT)
    del OURS[:]
    marsh.schema.UnmarshalSchema.cache_clear()
    for name in list(marsh.namespaces):
        del marsh.namespaces[name]
    marsh.namespaces.new('spaces', base=Component).register(Component, name='c')


def builtins(*types):
    out = {}
    for t in types:
        marsh.schema.UnmarshalSchema.cache_clear()
        out[t] = type(marsh.schema.UnmarshalSchema(t))
    marsh.schema.UnmarshalSchema.cache_clear()
    return out


MATCHES = {'Plain': lambda t: t is Plain, 'Sub': lambda t: t is Sub, 'both': lambda t: t is Plain or t is Sub,
           'int': lambda t: t is int, 'none': lambda t: False}


def reading(number, matches, wraps):
    base = marsh.schema.core.unmarshal.WrapperUnmarshalSchema if wraps else marsh.schema.UnmarshalSchema
    test = MATCHES[matches]

    class Schema(base):
        @classmethod
        def match(cls, value):
            return test(value)

        def unmarshal(self, element):
            if wraps:
                return Got(number, self.schema.unmarshal(element))
            if marsh.utils.is_missing(element):
                if self.has_default():
                    return Got(number, self.get_default())
                raise marsh.errors.MissingValueError(type=self.value)
            return Got(number, element)
    Schema.wraps, Schema.number, Schema.test = wraps, number, staticmethod(test)
    return Schema


def writing(number, matches, wraps):
    base = marsh.schema.core.marshal.WrapperMarshalSchema if wraps else marsh.schema.MarshalSchema
    test = MATCHES[matches]

    class Schema(base):
        @classmethod
        def match(cls, value):
            return test(type(value))

        def marshal(self):
            if wraps:
                return {'number': number, 'value': self.schema.marshal()}
            return {'number': number}
    Schema.wraps, Schema.number, Schema.test = wraps, number, staticmethod(test)
    return Schema


def register(g, label, registry, make, number, matches, wraps, ways):
    """A new schema, in one of the ways to write it."""
    cls = make(number, g.choice(label + '.matches', matches), g.choice(label + '.wraps', wraps))
    way = g.choice(label + '.way', ways)
    if way == 'plain':
        p = g.int(label + '.priority', -3, 12)
        marsh.schema.register(cls, priority=p)
    elif way == 'decorator':
        got = marsh.schema.register(priority=20)(cls)
        g.check(got is cls, 'the class')
    elif way == 'first':
        marsh.schema.register(cls, lower_priority=list(registry))
    elif way == 'last':
        marsh.schema.register(cls, higher_priority=list(registry))
    elif way == 'registry':
        got = registry.register(priority=20)(cls)
        g.check(got is cls, 'the class')
    elif way == 'moved':
        marsh.schema.register(cls, priority=-20)
        before = list(registry)
        try:
            marsh.schema.register(cls, priority=20)
            g.fail('registered twice')
        except ValueError:
            pass
        g.check(list(registry) == before, 'nothing is changed')
        got = marsh.schema.register(cls, priority=20, replace=True)
        g.check(got is cls, 'the class')
        after = list(registry)
        g.check(after.count(cls) == 1 and after.index(cls) < before.index(cls), 'moved')
        g.check([s for s in after if s is not cls] == [s for s in before if s is not cls], 'the others stay')
    elif way == 'ahead':
        g.assume(len(OURS) > 0)
        marsh.schema.register(cls, lower_priority=OURS[-1])
    OURS.append(cls)


def chain(registry, builtin, t):
    """Schemas of the user for a type, outermost first, and whether the builtin one is at the end."""
    out = []
    for s in registry:
        if s in OURS:
            if s.test(t):
                out.append(s)
                if not s.wraps:
                    return out, False
        elif s is builtin[t]:
            return out, True
    return out, True


def peel(g, got, schemas):
    for s in schemas:
        g.check(type(got) is Got and got.number == s.number, 'schema')
        if type(got) is not Got:
            return got
        got = got.value
    return got


def agree(g, builtin, t, e, got, default=None):
    """`got` is what the schemas of t make of e."""
    schemas, natural = chain(REG, builtin, t)
    inner = peel(g, got, schemas)
    if natural:
        g.check(type(inner) is t, 'type')
        if type(inner) is t:
            n = inner if t is int else inner.n
            if t is not int:
                inside = chain(REG, builtin, int)
                n = peel(g, n, inside[0])
                if not inside[1] or e is None:
                    g.check(g.same(n, 3 if e is None else e['n']), 'element')
                    return
                e = e['n']
            g.check(g.same(n, e), 'value')
    elif e is None:
        g.check(inner is default, 'default')
    else:
        g.check(g.same(inner, e), 'element')


PLACES = ('plain', 'sub', 'int', 'list', 'dict', 'optional', 'union', 'tuple', 'field', 'option', 'pair', 'component')


def use(g, i, builtin, places):
    place = g.choice(f'place{i}', places)
    x = g.int(f'x{i}')
    e = {'n': x}
    if place == 'plain':
        agree(g, builtin, Plain, e, marsh.unmarshal(Plain, e))
    elif place == 'sub':
        agree(g, builtin, Sub, e, marsh.unmarshal(Sub, e))
    elif place == 'int':
        agree(g, builtin, int, x, marsh.unmarshal(int, x))
    elif place == 'list':
        got = marsh.unmarshal(List[Plain], [e, e])
        g.check(type(got) is list and len(got) == 2, 'container')
        for v in got:
            agree(g, builtin, Plain, e, v)
    elif place == 'dict':
        got = marsh.unmarshal(Dict[str, Sub], {'k': e})
        g.check(type(got) is dict and list(got) == ['k'], 'container')
        agree(g, builtin, Sub, e, got['k'])
    elif place == 'optional':
        agree(g, builtin, Plain, e, marsh.unmarshal(Optional[Plain], e))
    elif place == 'union':
        agree(g, builtin, Sub, e, marsh.unmarshal(Union[Sub, Dict[str, int]], e))
    elif place == 'tuple':
        got = marsh.unmarshal(Tuple[Plain, Sub], (e, e))
        agree(g, builtin, Plain, e, got[0])
        agree(g, builtin, Sub, e, got[1])
    elif place in ('field', 'option'):
        el = {'p': e} if place == 'field' else {'p': e, 'q': e}
        got = marsh.unmarshal(Holder, el)
        g.check(type(got) is Holder, 'container')
        agree(g, builtin, Plain, e, got.p)
        if place == 'field':
            g.check(got.q is None, 'absent')
        else:
            agree(g, builtin, Sub, e, got.q)
    elif place == 'pair':
        got = marsh.unmarshal(Pair, [e, e])
        agree(g, builtin, Plain, e, got.p)
        agree(g, builtin, Sub, e, got.s)
    elif place == 'component':
        got = marsh.unmarshal(Component, {'name': 'c', 'p': e})
        g.check(type(got) is Component, 'container')
        agree(g, builtin, Plain, e, got.p)


def read(g, steps, places, matches, wraps, ways):
    """Registering and reading in turns."""
    reset()
    builtin = builtins(Plain, Sub, int)
    try:
        for i in range(steps):
            if i + 1 < steps and g.choice(f'op{i}', ('register', 'use')) == 'register':
                register(g, f's{i}', REG, reading, i, matches, wraps, ways)
            else:
                use(g, i, builtin, places)
    finally:
        reset()


def defaults(g, wraps, ways):
    """Schemas of the user see the default of a field, and whether its value is missing."""
    reset()
    value = Plain(7)
    Late = dataclasses.make_dataclass('Late', [('p', Plain, dataclasses.field(default=value)), ('n', int, dataclasses.field(default=4))])
    builtin = builtins(Plain, int)
    try:
        if g.choice('before', (False, True)):
            g.check(marsh.unmarshal(Late, {}).p is value, 'default before')
        register(g, 's', REG, reading, 0, ('Plain',), wraps, ways)
        schemas, natural = chain(REG, builtin, Plain)
        given = g.choice('given', (False, True))
        e = {'n': g.int('x')}
        got = marsh.unmarshal(Late, {'p': e} if given else {})
        inner = peel(g, got.p, schemas)
        if given and natural:
            g.check(type(inner) is Plain and g.same(inner.n, e['n']), 'value')
        else:
            g.check(g.same(inner, e) if given else inner is value, 'default')
        g.check(got.n == 4, 'other field')
        try:
            got = marsh.unmarshal(Holder, {})
        except marsh.errors.MissingValueError:
            got = None
        g.check((got is None) == (not natural), 'missing')
    finally:
        reset()


def write(g, steps, places, matches, wraps, ways):
    """Registering and writing in turns."""
    reset()
    builtin = {Plain: None, Sub: None, int: None}
    base = {}
    for t, v in ((Plain, Plain(1)), (Sub, Sub(1)), (int, 1)):
        builtin[t] = None
        for s in OUT:
            if s.match(v) and not issubclass(s, marsh.schema.core.marshal.WrapperMarshalSchema):
                builtin[t] = s
                break
        base[t] = builtin[t] is not None
    try:
        for i in range(steps):
            if i + 1 < steps and g.choice(f'op{i}', ('register', 'use')) == 'register':
                register(g, f's{i}', OUT, writing, i, matches, wraps, ways)
                continue
            place = g.choice(f'place{i}', places)
            x = g.int(f'x{i}')
            t = g.choice(f'type{i}', (int, Plain, Sub))
            v = x if t is int else t(x)
            schemas, natural = chain(OUT, builtin, t)
            whole = {'plain': lambda: v, 'list': lambda: [v], 'dict': lambda: {'k': v},
                     'deep': lambda: {'k': [(v,)]}}[place]()
            try:
                got = marsh.marshal(whole)
            except marsh.errors.MarshalError:
                g.check(natural and not base[t], 'refused')
                continue
            got = {'plain': lambda: got, 'list': lambda: got[0], 'dict': lambda: got['k'], 'deep': lambda: got['k'][0][0]}[place]()
            if natural and not base[t]:
                g.fail('accepted')
            for s in schemas:
                g.check(type(got) is dict and 'number' in got and got['number'] == s.number, 'schema')
                if not s.wraps:
                    g.check(list(got) == ['number'], 'element')
                else:
                    got = got['value']
            if natural and t is int:
                g.check(g.same(got, x), 'value')
    finally:
        reset()


def stacked(g, depth, out):
    """Schemas of the user around schemas of the user: every one has its turn, in their order."""
    reset()
    try:
        n = g.choice('n', tuple(range(1, depth + 1)))
        registry, make = (OUT, writing) if out else (REG, reading)
        for i in range(n):
            cls = make(i, g.choice(f'm{i}', ('Plain', 'both')), True)
            cls.rank = g.int(f'p{i}', 11, 14)
            marsh.schema.register(cls, priority=cls.rank)
            OURS.append(cls)
        if out:
            last = make(n, 'Plain', False)
            marsh.schema.register(last, priority=1)
            OURS.append(last)
        schemas = [s for s in registry if s in OURS]
        ranks = [s.rank for s in schemas if s.wraps]
        for a, b in zip(ranks, ranks[1:]):
            g.check(a >= b, 'order')
        x = g.int('x')
        if out:
            got = marsh.marshal(Plain(x))
            for s in schemas:
                g.check(got['number'] == s.number, 'schema')
                if s.wraps:
                    got = got['value']
            return
        got = peel(g, marsh.unmarshal(Plain, {'n': x}), schemas)
        g.check(type(got) is Plain and g.same(got.n, x), 'value')
    finally:
        reset()


WAYS = ('plain', 'decorator', 'registry', 'moved', 'first', 'last', 'ahead')
HARNESSES = [
    Harness(read, dict(steps=2, places=PLACES, matches=tuple(MATCHES), wraps=(False, True), ways=WAYS),
            dict(steps=3, places=PLACES, matches=('Plain', 'both', 'int'), wraps=(False, True), ways=('plain', 'first', 'ahead')), weight=2),
    Harness(read, dict(steps=3, places=('plain', 'list', 'option', 'component'), matches=('Plain', 'both'), wraps=(False, True), ways=('plain', 'ahead')),
            dict(steps=4, places=('plain', 'component'), matches=('Plain',), wraps=(False, True), ways=('plain', 'ahead')), name='read_histories', weight=2),
    Harness(defaults, dict(wraps=(False, True), ways=('plain', 'first', 'last'))),
    Harness(write, dict(steps=2, places=('plain', 'list', 'dict', 'deep'), matches=tuple(MATCHES), wraps=(False, True), ways=WAYS),
            dict(steps=3, places=('plain', 'list', 'deep'), matches=('Plain', 'both', 'int'), wraps=(False, True), ways=('plain', 'first', 'ahead'))),
    Harness(stacked, dict(depth=4, out=False), dict(depth=5, out=False), name='stacked_in'),
    Harness(stacked, dict(depth=4, out=True), dict(depth=5, out=True), name='stacked_out'),
]
