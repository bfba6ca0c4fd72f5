"""C20: a union yields the value of its first member type that accepts the element."""
import typing
import marsh
from symx.base import Harness
from harness import ref as F
from harness import types_pool as T

I, S, B, FL, N = T.INT, T.STR, T.BOOL, T.FLOAT, T.NONE


def new(d, t):
    d.t = t
    return d


UNIONS = {
    'int_str': F.Un(I, S),
    'bool_int_float': F.Un(B, I, FL),
    'float_bool': F.Un(FL, B),
    'int_seq': F.Un(I, F.Seq(I)),
    'map_seq': F.Un(F.Map(S, I), F.Seq(S)),
    'point_sized': F.Un(T.POINT, T.PAIR),
    'dicts': F.Un(T.FULL, F.Map(S, S)),
    'literal_int': F.Un(F.Lit('a', 'b'), I),
    'none_first': F.Un(N, I, S),
    'none_last': F.Un(I, F.Seq(S), N),
    'seqs': F.Un(F.Seq(I), F.Seq(S)),
    'annotated': F.Un(T.POSITIVE, S),
    'nested': F.Un(F.Un(B, I), S),
    'optional_int': F.Opt(I),
    'optional_str': F.Opt(S),
    'optional_point': F.Opt(T.POINT),
    'optional_seq': F.Opt(F.Seq(F.Opt(I))),
    'optional_union': F.Un(I, F.Seq(I), N),
    'pipe': new(F.Un(I, F.Seq(S)), typing.Union[int, typing.List[str]] if not hasattr(int, '__or__') else int | list[str]),
    'pipe_none': new(F.Opt(B), bool | None),
    'none_pipe': new(F.Opt(F.Seq(B)), None | typing.List[bool]),
}


def members(g, which, **cfg):
    d = UNIONS[which]
    F.agree(g, d, d.gen(g, 'e', cfg))


def inside(g, which, **cfg):
    """Unions as items of containers."""
    d = F.Seq(UNIONS[which])
    F.agree(g, d, d.gen(g, 'e', cfg))


CFG = dict(leaf='all', width=1, faults=2)
DEEP = dict(leaf='all', width=2, strmax=4, faults=3)
SMALL = ('int_str', 'bool_int_float', 'float_bool', 'dicts', 'literal_int', 'none_first', 'seqs',
         'annotated', 'nested')
ONE = ('point_sized', 'dicts', 'optional_point')


def cfg(base, w):
    out = dict(base, which=w)
    if w in SMALL:
        out['small'] = True         # numbers are rendered as text: from a fixed list
    if w in ONE:
        out['faults'] -= 1
    return out


HARNESSES = [Harness(members, cfg(CFG, w), cfg(DEEP, w), name='members_' + w) for w in UNIONS]
HARNESSES += [Harness(inside, dict(cfg(CFG, w), faults=1), dict(cfg(DEEP, w), faults=2), name='inside_' + w)
              for w in ('int_str', 'optional_int', 'pipe', 'none_first')]
