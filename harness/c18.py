"""C18: literals and enums only ever yield their own members."""
import enum
import marsh
from symx.base import Harness
from harness import ref as F
from harness.types_pool import COLOR, Color

LITS = {
    'str': F.Lit('a', 'ab', 'true'),
    'int': F.Lit(1, 2, -3),
    'mixed': F.Lit('1', 1, True, 2.5),
    'bool': F.Lit(True, False),
    'none': F.Lit(None, 'x'),
    'one': F.Lit('only'),
    'space': F.Lit(' a', 'a', '', ' '),
    'spaced': F.Lit(' a', 'b ', '\n'),
    'cased': F.Lit('A', 'bC'),
    'float': F.Lit(1.0, 0.5),
}


class Level(enum.IntEnum):
    low = 1
    high = 7


class Word(str, enum.Enum):
    a = 'x'
    x = 'a'


class Swap(enum.Enum):
    one = 'two'
    two = 'one'
    alias = 'two'
    t = (1, 2)
    n = 3
    f = 3.5
    yes = False


def element(g, strmax, numbers):
    k = g.choice('kind', ('str', 'int', 'bool', 'float', 'none', 'missing', 'map', 'seq'))
    if k == 'str':
        return g.str('e', strmax, alphabet='ascii')
    if k == 'int':
        return g.int('e') if numbers else g.choice('e', (0, 1, 2, -3, 10 ** 400))
    if k == 'bool':
        return g.bool('e')
    if k == 'float':
        return g.float('e') if numbers else g.choice('e', (0.0, 1.0, 2.5, 0.5, float('nan'), float('inf')))
    return {'none': None, 'missing': marsh.MISSING, 'map': {'a': 1}, 'seq': ('a',)}[k]


def literal(g, which, strmax, numbers):
    """Exactly the documented conversions select a literal, the first that fits."""
    F.agree(g, LITS[which], element(g, strmax, numbers))


def enums(g, which, strmax):
    d = {'color': COLOR, 'swap': F.En(Swap)}[which]
    out = F.agree(g, d, element(g, strmax, False))
    if out:
        g.check(isinstance(out[0], d.t), 'member')


def based(g, which, strmax):
    """Enums that are also ints or strings yield members or an error."""
    cls = {'level': Level, 'word': Word}[which]
    got = F.run(cls, element(g, strmax, False))
    if got[0] == 'ok':
        g.check(type(got[1]) is cls, 'member')
    else:
        g.check(isinstance(got[1], marsh.errors.UnmarshalError), 'unmarshal error')


def by_name(g):
    """Every name selects its member, whatever the values of the others."""
    cls = g.choice('cls', (Swap, Color))
    name = g.choice('name', tuple(cls.__members__))
    got = F.run(cls, name)
    g.check(got[0] == 'ok', 'accepted')
    if got[0] == 'ok':
        g.check(got[1] is cls.__members__[name], 'member')


HARNESSES = [Harness(literal, dict(which=w, strmax=3, numbers=w in ('int', 'float')),
                     dict(which=w, strmax=5, numbers=w in ('int', 'float')), name='literal_' + w)
             for w in LITS]
HARNESSES += [
    Harness(enums, dict(which='color', strmax=3), dict(which='color', strmax=5), name='enum_color'),
    Harness(enums, dict(which='swap', strmax=4), dict(which='swap', strmax=6), name='enum_swap'),
    Harness(based, dict(which='level', strmax=2), dict(which='level', strmax=4), name='int_enum'),
    Harness(based, dict(which='word', strmax=2), dict(which='word', strmax=4), name='str_enum'),
    Harness(by_name),
]
