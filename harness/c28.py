"""C28: what a type accepts and gives does not depend on what was unmarshaled before."""
import dataclasses
import enum
import typing
from typing import Annotated, Any, Dict, List, Literal, NamedTuple, Optional, Tuple, Union

import marsh
from symx.base import Harness
from harness import ref as F
from harness import types_pool as T
from harness import fwd_a, fwd_b

I, S, B, FL, N = T.INT, T.STR, T.BOOL, T.FLOAT, T.NONE


def reset():
    marsh.schema.UnmarshalSchema.cache_clear()
    for name in list(marsh.namespaces):
        del marsh.namespaces[name]


def new(d, t):
    d.t = t
    return d


def twin():
    @dataclasses.dataclass
    class Item:
        x: int
    return Item


def other():
    @dataclasses.dataclass
    class Item:
        x: str = 'd'
    return Item


A, O = twin(), other()
A2 = twin()


class Low(enum.IntEnum):
    a = 1
    b = 2


class High(enum.IntEnum):
    c = 1
    d = 3


class Red(enum.Enum):
    a = 1


class Blue(enum.Enum):
    a = 2
    b = 1


@dataclasses.dataclass(frozen=True)
class Scale:
    k: Any

    def __call__(self, x: int):
        return [self.k, x]


class Scaled(F.Sig):
    def ref(self, e):
        return [self.fn.k] + super().ref(e)


def scale(k):
    return Scaled(Scale(k), ('pos', 'x', I, F.NODEF))


SEQ_IS = new(F.Seq(F.Un(I, S)), list[Union[int, str]])
SEQ_SI = new(F.Seq(F.Un(S, I)), list[Union[str, int]])
class Until(F.Thunk):
    """A recursive reference, followed once."""

    def gen(self, g, name, cfg):
        if cfg.get('followed'):
            return None
        return super().gen(g, name, dict(cfg, followed=True))


CHAIN = T.rec(T.Node, ('v', I), ('rest', F.Opt(Until(T.Node, lambda: CHAIN)), lambda: None))


def knot(t):
    @dataclasses.dataclass
    class Knot:
        v: t
        rest: Optional['Knot'] = None
        many: List['Knot'] = dataclasses.field(default_factory=list)
    return Knot


def bare_knot(t):
    class Knot:
        def __init__(self, v: t, rest: Optional['Knot'] = None, many: List['Knot'] = ()):
            self.v, self.rest, self.many = v, rest, many
    return Knot


def quoted_knot(t):
    class Knot:
        def __init__(self, v: t, rest: 'Optional[Knot]' = None, many: 'List[Knot]' = ()):
            self.v, self.rest, self.many = v, rest, many
    return Knot


def tuple_knot(t):
    class Knot(NamedTuple):
        v: t
        rest: Optional['Knot'] = None
        many: List['Knot'] = ()
    return Knot


MAKE = {'int': lambda: knot(int), 'str': lambda: knot(str), 'bare': lambda: bare_knot(int), 'quoted': lambda: quoted_knot(int),
        'tuple': lambda: tuple_knot(str)}


def local(g, steps):
    """Classes within functions, all of the same name, which refer to themselves by it."""
    reset()
    made = []
    for i in range(steps):
        op = g.choice(f'op{i}', tuple(MAKE) + ('again', 'clear'))
        if op == 'clear':
            marsh.schema.UnmarshalSchema.cache_clear()
        if op in ('clear', 'again'):
            g.assume(bool(made))
            at = g.choice(f'which{i}', tuple(range(len(made))))
        else:
            made.append(MAKE[op]())
            at = len(made) - 1
        t = made[at]
        v = g.int(f'v{i}', 0, 9)
        e = g.choice(f'shape{i}', ('flat', 'rest', 'many'))
        r = marsh.unmarshal(t, {'flat': {'v': 3}, 'rest': {'v': 1, 'rest': {'v': 2, 'rest': {'v': v}}}, 'many': {'v': 1, 'many': [{'v': 2}, {'v': v}]}}[e])
        g.check(type(r) is t, 'type')
        if e != 'flat':
            inner = [r.rest, r.rest.rest] if e == 'rest' else list(r.many)
            g.check(len(inner) == 2, 'parts')
            for x in inner:
                g.check(type(x) is t, 'type of the parts')
            if type(r.v) is int:
                g.check(g.same(inner[1].v, v), 'value')
            else:
                g.check(type(inner[1].v) is str, 'value')


def family():
    class Leaf:
        def __init__(self, v: int):
            self.v = v

    class Tree:
        def __init__(self, leaf: Optional['Leaf'] = None, more: List['Leaf'] = ()):
            self.leaf, self.more = leaf, more
    return Leaf, Tree


def families(g, steps):
    """A name within functions means the class of that name used last."""
    reset()
    made = [family(), family(), family()]
    for i in range(steps):
        leaf, tree = made[g.choice(f'family{i}', (0, 1, 2))]
        marsh.schema.UnmarshalSchema.cache_clear()
        v = g.int(f'v{i}')
        g.check(marsh.unmarshal(leaf, {'v': v}).v == v, 'leaf')
        if g.choice(f'more{i}', (False, True)):
            parts = marsh.unmarshal(tree, {'more': [{'v': 1}, {'v': v}]}).more
        else:
            parts = [marsh.unmarshal(tree, {'leaf': {'v': v}}).leaf]
        for part in parts:
            g.check(type(part) is leaf, 'type')
        g.check(parts[-1].v == v, 'value')


def forwards(m, field, d):
    """Descriptors of the types of fwd_a or fwd_b."""
    leaf = T.rec(m.Leaf, (field, d))
    node = T.rec(m.Node, (field, d), ('rest', F.Opt(Until(m.Node, lambda: node)), lambda: None))
    return dict(
        node=node,
        direct=T.rec(m.Direct, ('rest', leaf)),
        many=T.rec(m.Many, ('items', F.Seq(leaf)), ('more', F.Opt(F.Map(S, leaf)), lambda: None)),
        tuple=T.rec(m.Tup, ('items', F.Seq(leaf))),
        dict=F.Rec(m.Dct, [('items', F.Seq(leaf), F.NODEF)], lambda v: dict(v)),
        cls=T.rec(m.Cls, ('items', F.Seq(leaf))),
    )


FWD_A, FWD_B = forwards(fwd_a, 'v', I), forwards(fwd_b, 'w', S)
POOLS = {
    'union_order': (F.Un(I, S), F.Un(S, I), new(F.Un(I, S), int | str), new(F.Un(S, I), str | int)),
    'list_order': (SEQ_IS, SEQ_SI, new(F.Seq(F.Un(I, S)), list[int | str]), new(F.Seq(F.Un(S, I)), list[str | int])),
    'dict_order': (new(F.Map(S, F.Un(B, I)), dict[str, Union[bool, int]]),
                   new(F.Map(S, F.Un(I, B)), dict[str, Union[int, bool]])),
    'deep_order': (new(F.Seq(F.Opt(SEQ_IS)), list[list[Union[int, str]] | None]),
                   new(F.Seq(F.Opt(SEQ_SI)), list[list[Union[str, int]] | None])),
    'literals': (F.Lit(1), F.Lit(True), F.Lit('1'), F.Lit(1, True), F.Lit(True, 1)),
    'zeros': (F.Lit(0), F.Lit(False), F.Lit(0, None), F.Lit(None, False)),
    'literal_lists': (new(F.Seq(F.Lit(1)), list[Literal[1]]), new(F.Seq(F.Lit(True)), list[Literal[True]]),
                      F.Seq(F.Lit(1)), F.Seq(F.Lit(True))),
    'literal_unions': (F.Un(F.Lit(1), S), F.Un(F.Lit(True), S)),
    'enums': (F.En(Red), F.En(Blue)),
    'enum_lists': (F.Seq(F.En(Red)), F.Seq(F.En(Blue))),
    'twins': (F.Rec(A, [('x', I, F.NODEF)], lambda v: A(**v)), F.Rec(O, [('x', S, lambda: 'd')], lambda v: O(**v)),
              F.Rec(A2, [('x', I, F.NODEF)], lambda v: A2(**v))),
    'annotated': (T.POSITIVE, T.UNSIGNED, I, F.Ann(FL, marsh.annotation.Positive, bad=(lambda v: v <= 0,)),
                  F.Ann(I, marsh.annotation.Negative, bad=(lambda v: v >= 0,))),
    'annotated_lists': (F.Seq(T.POSITIVE), F.Seq(T.UNSIGNED), F.Seq(I)),
    'optionals': (F.Opt(I), I, F.Opt(B), F.Opt(F.Seq(I))),
    'containers': (F.Seq(I), new(F.Seq(I), list[int]), F.Seq(I, Tuple[int, ...], tuple),
                   F.Seq(I, tuple[int, ...], tuple), F.fixed(I), F.fixed(I, I)),
    'recursive': (CHAIN, F.Seq(CHAIN), F.Opt(CHAIN)),
    'nested': (T.OUTER, T.POINT, F.Seq(T.POINT)),
    'calls': (scale(1), scale(True), scale(1.0)),
    'primitives': (I, B, FL, S),
    'mixed': (T.PAIR, T.FULL, T.PART),
}


def history(g, which, steps, **cfg):
    """Some types of one pool after each other, none of them affecting the others."""
    reset()
    pool = POOLS[which]
    for i in range(steps):
        d = pool[g.choice(f'type{i}', tuple(range(len(pool))))]
        faults = cfg['faults'] if i + 1 == steps else cfg['before']
        F.agree(g, d, d.gen(g, f'e{i}', dict(cfg, faults=faults)))


def members(g):
    """Members of int enums are equal to each other, but not the same type."""
    reset()
    for i in (0, 1, 2):
        m = g.choice(f'member{i}', (Low.a, High.c, Low.b, High.d))
        e = g.choice(f'e{i}', ('name', 'value', 'other'))
        e = {'name': m.name, 'value': m.value, 'other': 'zz'}[e]
        got = F.run(m, e)
        g.check((got[0] == 'ok') == (e != 'zz'), 'accepted')
        if got[0] == 'ok':
            g.check(got[1] is m, 'member')


class Unrelated:
    def __init__(self, x: int):
        self.x = x


def kept(g, which, **cfg):
    """A schema built once works like a fresh one, whatever happens in between."""
    reset()
    pool = POOLS[which]
    d = pool[g.choice('type', tuple(range(len(pool))))]
    schema = marsh.schema.UnmarshalSchema(d.t)
    between = g.choice('between', ('nothing', 'fails', 'works', 'clear', 'namespace', 'other'))
    if between == 'fails':
        F.run(d.t, object())
    elif between == 'works':
        e = d.gen(g, 'between', dict(cfg, faults=0))
        F.agree(g, d, e)
    elif between == 'clear':
        marsh.schema.UnmarshalSchema.cache_clear()
    elif between == 'namespace':
        marsh.namespaces.new('later', base=A)
    elif between == 'other':
        o = pool[g.choice('other', tuple(range(len(pool))))]
        marsh.schema.UnmarshalSchema(o.t)
    e = d.gen(g, 'e', cfg)
    want = F.expect(d, e)
    for _ in (0, 1):
        try:
            got = 'ok', schema.unmarshal(e)
        except marsh.errors.MarshError as err:
            got = 'no', err
        g.check(got[0] == want[0], 'accepted')
        if got[0] == 'ok':
            g.check(g.same(F.view(got[1]), F.view(want[1])), 'value')


@dataclasses.dataclass
class Deep:
    u: Unrelated
    us: List[Unrelated] = dataclasses.field(default_factory=list)


def late(g):
    """A schema registered late is used from then on, and not any longer once it is gone."""
    reset()
    registry = marsh.schema.UnmarshalSchema.registry
    v = g.int('v')
    t = g.choice('type', ('plain', 'list', 'field', 'optional', 'dict'))
    before = g.choice('before', (False, True))
    deep = {
        'plain': (Unrelated, lambda e: e, lambda r: r),
        'list': (List[Unrelated], lambda e: [e], lambda r: r[0]),
        'optional': (Optional[Unrelated], lambda e: e, lambda r: r),
        'dict': (Dict[str, Unrelated], lambda e: {'k': e}, lambda r: r['k']),
        'field': (Deep, lambda e: {'u': e}, lambda r: r.u),
    }
    hint, wrap, unwrap = deep[t]

    def plain():
        got = unwrap(marsh.unmarshal(hint, wrap({'x': v})))
        g.check(isinstance(got, Unrelated), 'type')
        g.check(got.x == v, 'as constructed')
    if before:
        plain()

    class Special(marsh.schema.UnmarshalSchema):
        @staticmethod
        def match(value):
            return value is Unrelated

        def unmarshal(self, element):
            return ('special', element)

    registry.register(Special, priority=g.choice('priority', (100, 1000)))
    try:
        g.check(g.same(unwrap(marsh.unmarshal(hint, wrap(v))), ('special', v)), 'late schema')
    finally:
        del registry.priority[[*registry.priority].index(Special)]
        reset()
    plain()


for _n in FWD_A:
    POOLS['forward_' + _n] = (FWD_A[_n], FWD_B[_n])

CFG = dict(leaf='two', width=1, faults=1, before=0, strmax=1, keymax=1, small=True, single=True, rec=('map',),
           extra=False, order=False)
DEEP = dict(CFG, leaf='bad', rec=('map', 'seq'), extra=True, before=1)
HEAVY = ('forward_many', 'forward_node', 'recursive', 'nested', 'containers')


def cfg(w, **more):
    return dict(CFG, which=w, **more) if w not in HEAVY else dict(CFG, which=w, wrong=False, ints=1, **more)


HARNESSES = [Harness(history, cfg(w, steps=2), dict(DEEP, which=w, steps=2), name='history_' + w) for w in POOLS]
HARNESSES += [Harness(kept, cfg(w), dict(DEEP, which=w), name='kept_' + w) for w in POOLS if w != 'calls']
HARNESSES += [Harness(members), Harness(late), Harness(local, dict(steps=3), dict(steps=4)), Harness(families, dict(steps=3), dict(steps=4))]
