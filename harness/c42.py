"""C42: complex numbers, dates, loggers, sets and default mappings read every form of a value alike."""
import collections
import dataclasses
import datetime
import logging
import numbers
from typing import Any, DefaultDict, Dict, List, Optional, Set, Tuple

import marsh
from symx.base import Harness
from harness import elements as R
from harness import ref as F
from harness import types_pool as T

ASSUMPTIONS = ['dates written freely are read by dateparser; those of ISO form only are checked, on the stated dates']
UTC = datetime.timezone.utc


def attempt(t, e):
    try:
        return 'ok', marsh.unmarshal(t, e)
    except marsh.errors.MarshError as err:
        return 'no', err


def wrapped(g, t, e):
    """The type on its own and inside of others."""
    where = g.choice('where', ('plain', 'list', 'dict', 'optional', 'field'))
    if where == 'plain':
        return attempt(t, e)
    if where == 'list':
        got = attempt(List[t], [e])
        return got if got[0] == 'no' else ('ok', got[1][0])
    if where == 'dict':
        got = attempt(Dict[str, t], {'k': e})
        return got if got[0] == 'no' else ('ok', got[1]['k'])
    if where == 'optional':
        return attempt(Optional[t], e)
    cls = dataclasses.make_dataclass('Holder', [('f', t)])
    got = attempt(cls, {'f': e})
    return got if got[0] == 'no' else ('ok', got[1].f)


def part(g, name, n):
    """Something to be read as a float, and the float, None when it is none."""
    kind = g.choice(name + '.kind', ('int', 'float', 'bool', 'text', 'odd'))
    if kind == 'int':
        e = g.int(name, -2 ** 52, 2 ** 52)
    elif kind == 'float':
        e = g.float(name)
    elif kind == 'bool':
        e = g.bool(name)
    elif kind == 'text':
        e = g.str(name, n)
    else:
        e = g.choice(name, ('1+2j', None, (), {}, b'1'))
    want = F.expect(T.FLOAT, e)
    return e, want[1] if want[0] == 'ok' else None


NAMES = (('real',), ('imag',), ('real', 'imag'), ('imag', 'real'), ('real', 'other'))


def complexes(g, n, alone, names=NAMES):
    """A number, its text, a sequence of up to two, or a mapping of the parts."""
    form = g.choice('form', ('number', 'sequence', 'mapping'))
    t = g.choice('type', (complex, numbers.Complex))
    if form == 'number':
        e, re = part(g, 'x', alone)
        im = 0.0
        good = re is not None
        if e == () or e == {}:
            re, good = 0.0, True
        if isinstance(e, str) and e == '???':
            return
    elif form == 'sequence':
        count = g.choice('len', (0, 1, 2, 3))
        parts = [part(g, f'x{i}', n if i == 0 else 1) if i < 2 else (1, 1.0) for i in range(count)]
        e = [x for x, _ in parts]
        good = count < 3 and all([v is not None for _, v in parts])
        re, im = ([v for _, v in parts] + [0.0, 0.0])[:2]
    else:
        names = g.choice('names', names)
        parts = {k: part(g, k, n if k == 'real' else 1) for k in names}
        e = {k: x for k, (x, _) in parts.items()}
        good = 'other' not in names and all([v is not None for _, v in parts.values()])
        re, im = parts['real'][1] if 'real' in e else 0.0, parts['imag'][1] if 'imag' in e else 0.0
    got = wrapped(g, t, e)
    if e is None:
        g.check(got[0] == 'no' or got[1] is None, 'accepted')
        return
    g.check((got[0] == 'ok') == good, 'accepted')
    if got[0] == 'ok' and good:
        g.check(type(got[1]) is complex, 'type')
        g.check(g.same(got[1].real, re), 'real part')
        g.check(g.same(got[1].imag, im), 'imaginary part')


class Day(datetime.date):
    """Remembers what it was made of."""

    def __new__(cls, *args, **kwargs):
        self = super().__new__(cls, 2000, 1, 1)
        self.made = [list(args), dict(kwargs)]
        return self


class Moment(datetime.datetime):
    def __new__(cls, *args, **kwargs):
        self = super().__new__(cls, 2000, 1, 1)
        self.made = [list(args), dict(kwargs)]
        return self


class Clock(datetime.time):
    def __new__(cls, *args, **kwargs):
        self = super().__new__(cls)
        self.made = [list(args), dict(kwargs)]
        return self


def parts(g, n):
    """Date and time classes get exactly the parts given, by position or by name."""
    t = g.choice('type', (Day, Moment, Clock))
    items = [g.int(f'v{i}') if g.choice(f'kind{i}', ('int', 'text')) == 'int' else g.str(f't{i}', 1)
             for i in range(g.choice('len', tuple(range(n + 1))))]
    if g.choice('form', ('sequence', 'mapping')) == 'sequence':
        e, want = tuple(items), [items, {}]
    else:
        keys = []
        for i in range(len(items)):
            k = g.str(f'k{i}', 1)
            g.assume(not any([k == x for x in keys]))
            keys.append(k)
        e = dict(zip(keys, items))
        want = [[], dict(e)]
    got = wrapped(g, t, e)
    g.check(got[0] == 'ok', 'accepted')
    if got[0] == 'ok':
        g.check(type(got[1]) is t, 'type')
        g.check(g.same(got[1].made, want), 'parts')


DAYS = ((2020, 2, 29), (1, 1, 1), (9999, 12, 31), (1970, 1, 1), (2021, 2, 29), (2020, 13, 1), (0, 1, 1))
TIMES = ((), (5,), (23, 59), (1, 2, 3), (0, 0, 0, 7), (24,), (1, 60))


def dates(g):
    """Parts by position or by name: exactly the date or time of these parts."""
    t = g.choice('type', ('date', 'datetime', 'time'))
    cls = getattr(datetime, t)
    parts = () if t == 'time' else g.choice('day', DAYS)
    names = () if t == 'time' else ('year', 'month', 'day')
    if t != 'date':
        parts += g.choice('time', TIMES)
        names += ('hour', 'minute', 'second', 'microsecond')
    names = names[:len(parts)]
    try:
        want = cls(*parts)
    except ValueError:
        want = None
    form = g.choice('form', ('sequence', 'mapping', 'mixed'))
    if form == 'sequence':
        e = parts
    elif form == 'mapping':
        e = dict(zip(names, parts))
    else:
        e = dict(list(zip(names, parts))[::-1])
    got = wrapped(g, cls, e)
    g.check((got[0] == 'ok') == (want is not None), 'accepted')
    if got[0] == 'ok':
        g.check(type(got[1]) is cls and got[1] == want, 'value')
        back = marsh.unmarshal(cls, marsh.marshal(got[1])) if parts[:1] not in ((1,), (9999,)) and t != 'time' else None
        if back is not None:
            g.check([getattr(back, n) for n in names] == [getattr(want, n) for n in names], 'written and read')


STAMPS = (0, 1, 86399, 1600000000, -1, 0.5, 253402300799, 1e300)


def stamps(g):
    """Seconds since 1970, as a number or its text."""
    t = g.choice('type', ('date', 'datetime', 'time'))
    s = g.choice('stamp', STAMPS)
    e = str(s) if s < 1e200 and g.choice('text', (False, True)) else s
    try:
        want = datetime.datetime.fromtimestamp(s, UTC)
    except (ValueError, OverflowError):
        want = None
    got = wrapped(g, getattr(datetime, t), e)
    g.check((got[0] == 'ok') == (want is not None), 'accepted')
    if got[0] == 'ok':
        g.check(isinstance(got[1], getattr(datetime, t)), 'type')
        if t == 'time':
            g.check(got[1] == want.time(), 'value')
        elif t == 'datetime':
            g.check(got[1] == want, 'value')
        else:
            g.check((got[1].year, got[1].month, got[1].day) == (want.year, want.month, want.day), 'value')


LEVELS = ((10, 10), ('INFO', 20), ('20', 20), (0, 0), (35, 35), ('LOUD', None), ((), None))


def loggers(g):
    """A name, or a mapping of name and level: the logger of that name, with that level."""
    form = g.choice('form', ('name', 'mapping', 'missing', 'wrong'))
    name = g.choice('name', ('verif.a', 'verif.a.b', 'verif', ''))
    logging.getLogger(name or 'verif').setLevel(30)
    level = None
    if form == 'name':
        e = name
    elif form == 'missing':
        e = marsh.MISSING
        name = ''
    elif form == 'mapping':
        e = {}
        if name:
            e['name'] = name
        if name and g.choice('leveled', (False, True)):
            e['level'], level = LEVELS[g.choice('level', tuple(range(len(LEVELS))))]
    else:
        e = g.choice('wrong', (None, 5, (), {'nom': 'x'}, {'name': {}}))
    where = wrapped(g, logging.Logger, e)
    # numbers are read as their text
    if form == 'wrong':
        if e == 5:
            g.check(where[0] == 'ok' and where[1] is logging.getLogger('5'), 'name')
        elif e is None:
            g.check(where[0] == 'no' or where[1] is None, 'refused')
        else:
            g.check(where[0] == 'no', 'refused')
        return
    bad = 'level' in e and level is None if form == 'mapping' else False
    g.check((where[0] == 'ok') == (not bad), 'accepted')
    if where[0] == 'ok':
        g.check(where[1] is (logging.getLogger(name) if name else logging.getLogger()), 'logger')
        if name:
            g.check(where[1].level == (30 if level is None else level), 'level')


def sets(g, n):
    """A set of exactly the values of the items."""
    items = []
    for i in range(g.choice('len', tuple(range(n + 1)))):
        items.append(g.int(f'v{i}', -9, 9) if g.choice(f'kind{i}', ('int', 'text')) == 'int' else g.str(f't{i}', 1, alphabet='ascii'))
    t = g.choice('type', (0, 1, 2, 3))
    if t == 3:
        items = [g.choice(f'b{i}', ('true', False, '1', 0, 'no')) for i in range(len(items))]
    want = F.expect(F.Seq((T.INT, T.STR, T.FLOAT, T.BOOL)[t]), items)
    got = attempt((Set[int], Set[str], Set[float], Set[bool])[t], items)
    g.check(got[0] == want[0], 'accepted')
    if got[0] == want[0] == 'ok':
        g.check(type(got[1]) is set, 'type')
        for v in want[1]:
            g.check(v in got[1], 'items')
            g.check(all([type(x) is type(v) for x in got[1]]), 'types')
        count = 0
        for i, v in enumerate(want[1]):
            if not any([v == w for w in want[1][:i]]):
                count += 1
        g.check(len(got[1]) == count, 'nothing else')


@dataclasses.dataclass
class Deflt:
    x: int = 4
    y: List[int] = dataclasses.field(default_factory=list)


ZERO = {'int': (int, 0), 'float': (float, 0.0), 'bool': (bool, False), 'str': (str, ''), 'list': (List[int], []), 'dict': (Dict[str, int], {}),
        'none': (Optional[int], None), 'any': (Any, None), 'class': (Deflt, Deflt(4, [])), 'tuple': (Tuple[int, ...], ()),
        'nested': (DefaultDict[str, int], {}), 'complex': (complex, 0j), 'bytes': (bytes, b''), 'set': (Set[int], set())}


def defaults(g, kinds, n):
    """Keys given have their value, others a new zero value each."""
    kind = g.choice('kind', kinds)
    t, zero = ZERO[kind]
    e = {}
    for i in range(g.choice('len', (0, 1, 2))):
        k = g.str(f'k{i}', n)
        if not any([k == x for x in e]):
            e[k] = {'int': lambda: g.int(f'v{i}'), 'str': lambda: g.str(f'v{i}', n), 'list': lambda: [g.int(f'v{i}')],
                    'class': lambda: {'x': g.int(f'v{i}')}}.get(kind, lambda: None)()
            if e[k] is None:
                del e[k]
    g.assume(not any([v == '???' for v in e.values() if isinstance(v, str)]))
    got = marsh.unmarshal(DefaultDict[str, t], dict(e))
    g.check(type(got) is collections.defaultdict, 'type')
    g.check(len(got) == len(e), 'keys')
    for k, v in e.items():
        value = got[k]
        if kind == 'class':
            g.check(type(value) is Deflt and g.same([value.x, value.y], [v['x'], []]), 'value')
        else:
            g.check(g.same(value, v), 'value')
    other = g.str('other', n)
    g.assume(not any([other == k for k in e]))
    if kind == 'none':
        g.check(got[other] is None or got[other] == 0, 'zero')
    else:
        g.check(type(got[other]) is type(zero) or kind == 'nested', 'type of zero')
        g.check(got[other] == zero, 'zero')
    third = g.str('third', n)
    g.assume(not any([third == k for k in list(e) + [other]]))
    if kind in ('list', 'dict', 'class', 'nested', 'set'):
        g.check(got[third] is not got[other], 'a new one each')
    again = marsh.unmarshal(DefaultDict[str, t], {})
    g.check(len(again) == 0, 'nothing is kept')


HARNESSES = [
    Harness(complexes, dict(n=1, alone=3), dict(n=2, alone=4, names=(('real',), ('imag', 'real'))), weight=3),
    Harness(parts, dict(n=2), dict(n=3)),
    Harness(dates),
    Harness(stamps),
    Harness(loggers),
    Harness(sets, dict(n=2), dict(n=3)),
    Harness(defaults, dict(kinds=tuple(ZERO), n=1), dict(kinds=tuple(ZERO), n=2)),
]
