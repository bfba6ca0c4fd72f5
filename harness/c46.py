"""C46: an error says what is wrong and where, and a run that fails shows it."""
import dataclasses
import datetime
import logging
import os
from typing import Annotated, Any, Dict, List, Literal, NamedTuple, Optional, Set, Tuple, TypedDict, Union

import marsh
from symx.base import Harness
from harness import ref as F
from harness import types_pool as T
from harness.app import CommandLine
from harness.world import World

E = marsh.errors
KINDS = {'marsh': E.MarshError, 'unmarshal': E.UnmarshalError, 'missing': E.MissingValueError, 'path': E.PathError,
         'marshal': E.MarshalError, 'config': E.ConfigFileError}
VARIABLE = 'MARSH_FULL_ERROR'


def reset():
    os.environ.pop(VARIABLE, None)
    for name in list(marsh.namespaces):
        del marsh.namespaces[name]


def made(g, kind, msg, path=''):
    return KINDS[kind](msg, path=path)


def raise_in(err, fields):
    if not fields:
        raise err
    with E.prepend(fields[0]):
        raise_in(err, fields[1:])


def located(g, n, many, kinds):
    """Leaving the context of a field adds that field to the path, and nothing else changes."""
    kind = g.choice('error', kinds)
    msg = g.str('msg', 2)
    fields = [g.str(f'f{i}', n) if g.choice(f'kind{i}', ('text', 'number')) == 'text' else i * 10
              for i in range(g.choice('count', tuple(range(many + 1))))]
    end = [g.str('end', 1, 1)] if g.choice('has path', (False, True)) else []
    sep = '/' if kind == 'config' else '.'
    err = made(g, kind, msg, marsh.path.join_fields(end, delimiter=sep))
    try:
        raise_in(err, fields)
        g.fail('swallowed')
    except E.MarshError as got:
        g.check(got is err, 'the same error')
        want = [f if isinstance(f, str) else str(f) for f in fields]
        want = [f for f in want if f != ''] + end
        g.check(g.same(list(marsh.path.split(got.path, delimiter=sep)), want), 'path')
        g.check(g.same(got.args, (msg,)), 'message')
        f = g.str('last', 1)
        got.append(f)
        g.check(g.same(list(marsh.path.split(got.path, delimiter=sep)), want + ([f] if f != '' else [])), 'path')


class Foreign(Exception):
    pass


def untouched(g, n):
    """Other errors and values pass as they are."""
    err = g.choice('error', (Foreign('text'), KeyError('k'), SystemExit(4), KeyboardInterrupt(), StopIteration()))
    f = g.str('f', n)
    try:
        with E.prepend(f):
            with E.prepend(f):
                raise err
        g.fail('swallowed')
    except BaseException as got:
        g.check(got is err, 'the same error')
    seen = []
    with E.prepend(f):
        seen.append(f)
    g.check(len(seen) == 1, 'ran')


def shown(g, n, depth):
    """The text of an error shows its message, its path and the first cause that is not an error of marsh."""
    kind = g.choice('error', tuple(KINDS))
    msg, cause = g.str('msg', n, 1), g.str('cause', n, 1)
    path = g.str('path', n, alphabet='ascii')
    err = made(g, kind, msg, path)
    at = err
    causes = g.choice('causes', (0, 1) if depth == 1 else tuple(range(depth + 1)))
    for i in range(causes):
        inner = made(g, 'unmarshal', 'inner') if i + 1 < causes else Foreign(cause)
        at.__cause__ = inner
        at = inner
    text = str(err)
    g.check(msg in text, 'message')
    g.check(path in text, 'path')
    if causes:
        g.check(cause in text, 'cause')
    g.check(text.startswith(msg), 'message first')
    plain = err.pretty()
    g.check(msg in plain and path in plain, 'pretty')
    if causes:
        g.check('cause' in text[len(msg):], 'cause is announced')
    if kind in ('unmarshal', 'missing'):
        e = g.int('element', -99, 99)
        full = KINDS[kind](msg, path=path, element=e, type=Dict[str, int])
        g.check('Dict[str, int]' in str(full), 'type')
        g.check(str(e) in full.pretty(element=True)[len(full.pretty()):], 'element')
        none = KINDS[kind](msg, path=path)
        g.check(none.pretty(element=True) == none.pretty(), 'no element is told where there is none')


OUTSIDE = {'int': (int, T.INT), 'bool': (bool, T.BOOL), 'float': (float, T.FLOAT), 'literal': (Literal['a', 'ab'], F.Lit('a', 'ab')),
           'color': (T.Color, T.COLOR)}


def blamed(g, which, n):
    """The error holds the very element that is wrong, and the type it was to be of."""
    t, d = OUTSIDE[which]
    kind = g.choice('kind', ('str', 'none', 'list', 'map'))
    bad = {'str': lambda: g.str('e', n, 1, alphabet='ascii'), 'none': lambda: None, 'list': lambda: [1], 'map': lambda: {'k': 1}}[kind]()
    g.assume(F.expect(d, bad)[0] == 'no')
    if kind == 'str':
        g.assume(bad != '???')
    k = g.str('k', 2, 1)
    g.assume(k != '???')
    deep = g.choice('deep', (0, 1, 2))
    types = (t, Dict[str, t], Dict[str, Tuple[t, t]])
    good = F.expect(d, {'int': 1, 'bool': True, 'float': 1.5, 'literal': 'a', 'color': 'red'}[which])[1]
    elements = (bad, {k: bad}, {k: [{'int': 1, 'bool': True, 'float': 1.5, 'literal': 'a', 'color': T.Color.red.name}[which], bad]})
    try:
        marsh.unmarshal(types[deep], elements[deep])
        g.fail('accepted')
    except E.UnmarshalError as err:
        g.check(g.same(err.element, bad), 'element')
        g.check(err.type == t, 'type')
        g.check(g.same(list(marsh.path.split(err.path)), [[], [k], [k, '1']][deep]), 'path')


@dataclasses.dataclass
class Inner:
    y: int
    z: List[int] = dataclasses.field(default_factory=list)


class Pet:
    pass


class Dog(Pet):
    def __init__(self, age: int):
        self.age = age


class Odd(marsh.annotation.Annotation):
    def __call__(self, value):
        if value % 2 == 0:
            raise ValueError('even')
        return value


class NoList(marsh.annotation.PreAnnotation):
    def __call__(self, element):
        if isinstance(element, list):
            raise ValueError('a list')
        return element


class Pair(NamedTuple):
    a: int
    b: int = 2


class Named(TypedDict):
    a: int


def call(a: int, *, b: int = 1):
    return a, b


# type, elements that are wrong as a whole, a right one, its name
WHOLE = dict(
    bytes=(bytes, (None, [1], {'a': 1}), 'YQ==', 'bytes'),
    slice=(slice, (None, 'x', [1, 2, 3, 4], True), '1:2', 'slice'),
    datetime=(datetime.datetime, (None, [1], {'year': 1}, True), [2000, 1, 1], 'datetime'),
    time=(datetime.time, (None, [99], {'hours': 1}), [1], 'time'),
    complex=(complex, (None, 'x', [1, 2, 3], {'re': 1}), 1.5, 'complex'),
    logger=(logging.Logger, (None, [1], {'title': 1}, {'name': 'marsh.c46', 'level': 'NOPE'}), 'marsh.c46', 'Logger'),
    list=(List[int], (None, 'x', 5, {'a': 1}), [1], 'List[int]'),
    set=(Set[int], (None, 'x', 5, {'a': 1}), [1], 'Set[int]'),
    map=(Dict[str, int], (None, 'x', 5, [1]), {'a': 1}, 'Dict[str, int]'),
    pair=(Tuple[int, int], (None, 'x', 5, [1, 2, 3]), [1, 2], 'Tuple[int, int]'),
    dataclass=(Inner, (None, 'x', 5, {'y': 1, 'u': 1}), {'y': 1}, 'Inner'),
    namedtuple=(Pair, (None, 'x', 5, [1, 2, 3], {'a': 1, 'u': 1}), [1], 'Pair'),
    typeddict=(Named, (None, 'x', 5, {'a': 1, 'u': 1}), {'a': 1}, 'Named'),
    function=(call, (None, 'x', 5, {'a': 1, 'u': 1}), {'a': 1}, 'function'),
    literals=(Literal['a', 1], (None, 'x', 5, [1]), 'a', "Literal['a', 1]"),
    union=(Union[int, List[int]], (None, 'x', {'a': 1}, [None]), 1, 'Union[int, List[int]]'),
    none=(type(None), ('x', 5, [], False), None, 'NoneType'),
    annotated=(Annotated[int, Odd], (2, '4'), 1, 'int'),
    before=(Annotated[int, NoList()], ([1],), 1, 'int'),
)


def reason(g, which):
    """For every kind of type: the element and the type that do not match, where they are, in words."""
    t, bads, good, name = WHOLE[which]
    bad = bads[g.choice('bad', tuple(range(len(bads))))]
    i = g.choice('at', (0, 1))
    k = g.str('k', 2, 1)
    g.assume(k != '???')
    deep = g.choice('deep', (0, 1, 2))
    elements = (bad, {k: bad}, {k: [good, bad] if i else [bad, good]})
    try:
        marsh.unmarshal((t, Dict[str, t], Dict[str, List[t]])[deep], elements[deep])
        g.fail('accepted')
    except E.UnmarshalError as err:
        g.check(g.same(err.element, bad), 'element')
        g.check(err.type == t, 'type')
        g.check(g.same(list(marsh.path.split(err.path)), [[], [k], [k, str(i)]][deep]), 'path')
        lines = err.pretty(cause=True, element=True).split('\n')
        g.check(len(lines[0]) > 3, 'a reason is given')
        g.check(('\ttype: ' + name) in lines, 'type in the text')
        g.check(('\telement: ' + str(bad)) in lines, 'element in the text')


# type, its name, the path below it of what is missing
LACKING = dict(
    int=(int, 'int', []), float=(float, 'float', []), bool=(bool, 'bool', []), str=(str, 'str', []), bytes=(bytes, 'bytes', []),
    complex=(complex, 'complex', []), datetime=(datetime.datetime, 'datetime', []), any=(Any, 'Any', []), color=(T.Color, 'Color', []),
    union=(Union[int, str], 'Union[int, str]', []), dataclass=(Inner, 'int', ['y']), namedtuple=(Pair, 'int', ['a']),
    typeddict=(Named, 'int', ['a']), function=(call, 'int', ['a']), pair=(Tuple[str, int], 'str', ['0']))


def lacking(g, which, n):
    """A value that is not given is said to be missing, of what type and where."""
    t, name, below = LACKING[which]
    k = g.str('k', n, 1)
    g.assume(k != '???')
    how = g.choice('how', ('alone', 'marked', 'value', 'field'))

    @dataclasses.dataclass
    class Holder:
        x: t
    fields = {'alone': [], 'marked': [], 'value': [k], 'field': ['x']}[how] + below
    try:
        if how == 'alone':
            marsh.unmarshal(t)
        elif how == 'marked':
            marsh.unmarshal(t, '???')
        elif how == 'value':
            marsh.unmarshal(Dict[str, t], {k: marsh.MISSING})
        else:
            marsh.unmarshal(Holder, {})
        g.fail('accepted')
    except E.MissingValueError as err:
        g.check(g.same(list(marsh.path.split(err.path)), fields), 'path')
        text = str(err)
        g.check('missing' in text.split('\n')[0], 'reason')
        g.check(('\ttype: ' + name) in text.split('\n'), 'type')


def unknown(g, n):
    """The name of a component that is not there."""
    reset()
    ns = marsh.namespaces.new('pets', Pet)
    ns.register(Dog, name='dog')
    name = g.str('name', n, 1, alphabet='ascii')
    g.assume(name != 'dog')
    g.assume(name != '???')
    within = g.choice('within', (False, True))
    try:
        if within:
            marsh.unmarshal(List[Pet], [{'name': 'dog', 'age': 1}, {'name': name, 'age': 1}])
        else:
            marsh.unmarshal(Pet, {'name': name, 'age': 1})
        g.fail('accepted')
    except E.UnmarshalError as err:
        g.check(g.same(err.element, name), 'element')
        g.check(err.type is Pet, 'type')
        g.check(g.same(list(marsh.path.split(err.path)), ['1', 'name'] if within else ['name']), 'path')
        g.check(name in str(err), 'reason')
    finally:
        reset()


class Choosy(marsh.annotation.Annotation):
    def __init__(self, text):
        self.text = text

    def __call__(self, value):
        raise ValueError(self.text)


def explained(g, n):
    """Why a constraint or a constructor refuses a value is part of the text."""
    why = g.str('why', n, 1)

    class Picky:
        def __init__(self, x: int):
            raise ValueError(why)
    kind = g.choice('kind', ('annotation', 'inside'))
    try:
        if kind == 'annotation':
            marsh.unmarshal(Annotated[int, Choosy(why)], 1)
        else:
            marsh.unmarshal(List[Annotated[int, Choosy(why)]], [5])
        g.fail('accepted')
    except E.UnmarshalError as err:
        g.check(why in str(err), 'reason')
        g.check(type(err.__cause__) is ValueError, 'cause')


def handled(g, values):
    """A handler gets the errors it is for, once, unless full errors are asked for."""
    reset()
    full = g.choice('full', values)
    if full is not None:
        os.environ[VARIABLE] = full
    try:
        wanted = g.choice('wanted', (None, E.MarshError, E.UnmarshalError, OSError, Exception))
        err = g.choice('error', (E.UnmarshalError('u'), E.PathError('p'), FileNotFoundError('f'), Foreign('x'), None, SystemExit(1)))
        calls = []
        matches = err is not None and isinstance(err, wanted or E.MarshError)
        try:
            with E.maybe_handle_error(*((calls.append,) + ((wanted,) if wanted else ()))):
                if err is not None:
                    raise err
            out = None
        except BaseException as got:
            out = got
        if matches and not full:
            g.check(out is None, 'handled')
            g.check(len(calls) == 1 and calls[0] is err, 'handled once')
        else:
            g.check(out is err, 'raised')
            g.check(not calls, 'not handled')
    finally:
        reset()


CALLS = []


def work(a: int, b: Optional[Inner] = None, c: str = 'c'):
    CALLS.append(a)


APP = marsh.main(work)


def run(app, argv):
    """(exit status, what was printed, error)"""
    with CommandLine(argv) as line:
        code = err = None
        try:
            app()
        except SystemExit as e:
            code = e.code
        except Exception as e:
            err = e
    return code, ''.join([str(p) for p in line.out.parts]), err


def failing(g, n, values):
    """A run with a wrong configuration prints where it is wrong and ends with status 1; or raises, if asked to."""
    reset()
    del CALLS[:]
    full = g.choice('full', values)
    name = g.str('name', n, 1, alphabet='ascii')
    for c in name:
        g.assume(g.And('d' <= c, c <= 'x'))
    argv, where = g.choice('line', (
        (['a=x'], 'a'), (['a=1', 'b.y=[]'], 'b.y'), (['a=1', 'b.y=1', 'b.z=[1, x]'], 'b.z.1'), (['a=1', 'b={}'], 'b.y'),
        ([], 'a'), (['a=1', 'NAME=1'], 'NAME'), (['a=1', 'b.y=1', 'b.NAME=1'], 'NAME'), (['a=1', 'a.NAME=1'], 'a'),
        (['a=1', '@NAME'], 'NAME'), (['a=1', 'b@d/NAME'], 'NAME'), (['a=1', 'b@gone/NAME'], 'gone/NAME'), (['a=1', '~NAME'], 'NAME'),
        (['a=1', '-h', 'NAME'], 'NAME'), (['a=1', '-h', 'b.NAME'], 'NAME'), (['a=1', "'NAME=1"], 'quote'), (['NAME'], 'override')))
    argv = [w.replace('NAME', '{}').replace('{}', name, 1) if 'NAME' in w else w for w in argv]
    where = name if where == 'NAME' else where.replace('NAME', '') + (name if 'NAME' in where else '')
    if full is not None:
        os.environ[VARIABLE] = full
    try:
        with World(g, [], ['w', 'w/d'], 'w'):
            code, out, err = run(APP, argv)
    finally:
        reset()
    g.check(not CALLS, 'not called')
    if full:
        g.check(isinstance(err, (E.MarshError, OSError)), 'raised')
        return
    g.check(err is None and code == 1, 'status')
    g.check(where in out, 'where it is wrong')


HARNESSES = [
    Harness(located, dict(n=2, many=2, kinds=('marsh', 'config')), dict(n=3, many=3, kinds=('marsh', 'config'))),
    Harness(located, dict(n=1, many=1, kinds=tuple(KINDS)), name='located_kinds'),
    Harness(untouched, dict(n=2), dict(n=4)),
    Harness(shown, dict(n=2, depth=2), dict(n=4, depth=3)),
    Harness(explained, dict(n=2), dict(n=5)),
    Harness(handled, dict(values=(None, '', '1', '0'))),
    Harness(failing, dict(n=1, values=(None,)), dict(n=3, values=(None, '1'))),
    Harness(failing, dict(n=1, values=('1', '')), name='full'),
]
HARNESSES += [Harness(blamed, dict(which=w, n=2), dict(which=w, n=4), name='blamed_' + w) for w in OUTSIDE]
HARNESSES += [Harness(reason, dict(which=w), name='reason_' + w) for w in WHOLE]
HARNESSES += [Harness(lacking, dict(which=w, n=1), dict(which=w, n=3), name='lacking_' + w) for w in LACKING]
HARNESSES += [Harness(unknown, dict(n=1), dict(n=2))]
