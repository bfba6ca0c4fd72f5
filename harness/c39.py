"""C39: help documents exactly the fields of a configuration, at every path and depth."""
import dataclasses
from typing import Any, Dict, List, Literal, NamedTuple, Optional, Tuple, TypedDict, Union

import marsh
from symx.base import Harness
from harness.app import CommandLine

ASSUMPTIONS = ['descriptions out of docstrings and sources are read by libraries and not part of the claim']


@dataclasses.dataclass
class B:
    y: str
    z: int = 3


@dataclasses.dataclass
class A:
    x: int
    b: B


@dataclasses.dataclass
class Root:
    """The root of it all.

    It has more to say.
    """
    a: A
    n: int
    o: Optional[A] = None
    u: Union[A, str] = 'u'
    e: int = dataclasses.field(default_factory=lambda: 7)


class Pair(NamedTuple):
    p: A
    q: int = 5


class Typed(TypedDict):
    t: Pair
    b: bool


def deep(c: Root, d: int = 4, *rest: B, k: Optional[int] = None, **kw: A):
    return None


LONG = Literal['red', 'orange', 'yellow', 'green', 'blue', 'indigo', 'violet', 'black and white']
Odd = TypedDict('Odd', {'a.b': B, "c'd": LONG, 'with space': int, '.': bool})


@dataclasses.dataclass
class Animal:
    n: int = 1


@dataclasses.dataclass
class Dog(Animal):
    d: Optional[B] = None


@dataclasses.dataclass
class Cat(Animal):
    c: int = 0


@dataclasses.dataclass
class Home:
    h: Animal
    o: Optional[Animal] = None


def reset():
    for name in list(marsh.namespaces):
        del marsh.namespaces[name]
    marsh.schema.UnmarshalSchema.cache_clear()


# type: {field: (default text or None, type of the field)}
FIELDS = {
    B: {'y': (None, str), 'z': ('3', int)},
    A: {'x': (None, int), 'b': (None, B)},
    Root: {'a': (None, A), 'n': (None, int), 'o': ('None', Optional[A]), 'u': ('u', Union[A, str]),
           'e': ('...', int)},
    Pair: {'p': (None, A), 'q': ('5', int)},
    Typed: {'t': (None, Pair), 'b': (None, bool)},
    Odd: {'a.b': (None, B), "c'd": (None, LONG), 'with space': (None, int), '.': (None, bool)},
    deep: {'c': (None, Root), 'd': ('4', int), '*rest': (None, B), 'k': ('None', Optional[int]), '**kw': (None, A)},
}
KINDS = {'root': Root, 'pair': Pair, 'typed': Typed, 'function': deep, 'odd': Odd}


def inner(t):
    """The type help is about: optional ones are looked through."""
    return {Optional[A]: A, Optional[int]: int}.get(t, t)


def schema_of(t):
    if t is deep:
        return marsh.schema.argument.ArgumentsUnmarshalSchema(deep)
    return marsh.schema.UnmarshalSchema(t)


def walk(t, fields):
    """The type at a path, None when there is none."""
    for f in fields:
        t = inner(t)
        if t not in FIELDS:
            return None
        for name, (_, sub) in FIELDS[t].items():
            if name.strip('*') == f:
                t = sub
                break
        else:
            return None
    return inner(t)


def select(g, kinds, n):
    """Any text as a path."""
    t = KINDS[g.choice('type', kinds)]
    path = g.str('path', n, alphabet='ascii')
    for c in path:
        g.assume(g.Or(g.And('a' <= c, c <= 'z'), c == 'A', c == 'C', c == 'X', c == '.', c == "'", c == '\\', c == '*'))
    try:
        fields = list(marsh.path.split(path))
        # '*' only marks variable arguments
        g.assume(g.Not('*' in path))
        want = walk(t, fields)
    except marsh.errors.MarshError:
        want = None
    try:
        got = schema_of(t).select(path)
    except marsh.errors.MarshError:
        g.cover('refused')
        g.check(want is None, 'a field is not found')
        return
    g.cover('found')
    g.check(want is not None, 'a field that is not there is found')
    if want is not None:
        g.check(got.value == want or inner(got.value) == want, 'schema of the field')


def built(t, path, seen, out):
    """Paths of fields whose type is met for the first time, in order."""
    t = inner(t)
    for part in getattr(t, '__args__', (t,)):
        if part in seen or part not in FIELDS:
            continue
        seen.append(part)
        out.append(path)
        for name, (_, sub) in FIELDS[part].items():
            built(sub, path + (name.strip('*'),), seen, out)


def compare(g, doc, t, depth, path, first):
    # optional ones are documented on request only
    if depth <= 0 or t not in FIELDS:
        g.check(not doc.fields, 'fields below the depth')
        return
    want = FIELDS[t]
    if not doc.fields:
        # types met before are references, to be documented on request
        g.check(path not in first, 'fields of a type met for the first time')
        return
    g.check(list(doc.fields) == list(want), 'fields')
    for name, (default, sub) in want.items():
        field = doc.fields[name]
        g.check(field.doc.default == default, 'default')
        g.check(type(field.type) is str and field.type != '', 'type')
        compare(g, field.doc, sub, depth - 1, path + (name.strip('*'),), first)


def docs(g, kinds, most):
    """Fields and defaults down to the depth, from any path on."""
    t = KINDS[g.choice('type', kinds)]
    depth = g.int('depth', -1, most)
    path = g.choice('path', ('', 'a', 'a.b', 'o', 'o.b', 'p', 't', 't.p', 't.p.b', 'c', 'c.a', 'c.o.b', 'rest', 'kw', 'kw.b'))
    fields = tuple(marsh.path.split(path))
    sub = walk(t, fields)
    g.assume(sub is not None)
    first = []
    built(t, (), [], first)
    if not path or path == 'c':
        first.append(fields)
    marsh.schema.UnmarshalSchema.cache_clear()
    compare(g, schema_of(t).select(path).doc(depth), inner(sub), depth, fields, first)


def two(a: int, b: str = 'z'):
    return None


def rest(a: int, b: int = 2, *rest: int, k: int = 4):
    return None


def open_(a: int, /, b: int = 3, *, k: int, **kw: int):
    return None


CALLS = {'two': (two, ('a', 'b'), (), False, False), 'rest': (rest, ('a', 'b'), ('k',), True, False),
         'open': (open_, ('a', 'b'), ('k',), False, True)}
DEFAULTS = {'two': {'b': 'z'}, 'rest': {'b': '2', 'k': '4'}, 'open': {'b': '3'}}


def values(g, which, n):
    """What a call gave is shown as the default of the parameter it is for."""
    fn, pos, kws, star, more = CALLS[which]
    count = g.choice('args', tuple(range(len(pos) + 1 + (n if star else 0))))
    args = [g.int(f'arg{i}', -99, 99) for i in range(count)]
    kwargs = {}
    for name in pos[count:] + kws:
        if (which, name) != ('open', 'a') and g.choice('by name ' + name, (False, True)):
            kwargs[name] = g.int(name, -99, 99)
    if more and g.choice('more', (False, True)):
        kwargs['z'] = g.int('z', -99, 99)
    schema = marsh.schema.argument.ArgumentsUnmarshalSchema(fn)
    before = list(args), dict(kwargs)
    doc = schema.doc(depth=g.choice('depth', (1, 2)), default_args=args, default_kwargs=kwargs)
    g.check(g.same((args, kwargs), before), 'the arguments are not modified')
    want = {}
    for i, name in enumerate(pos):
        if i < count:
            want[name] = str(args[i])
        elif name in kwargs:
            want[name] = str(kwargs[name])
        else:
            want[name] = DEFAULTS[which].get(name)
    if star:
        want['*rest'] = str(args[len(pos):]) if count > len(pos) else None
    for name in kws:
        want[name] = str(kwargs[name]) if name in kwargs else DEFAULTS[which].get(name)
    if more:
        want['**kw'] = str({'z': kwargs['z']}) if 'z' in kwargs else None
    g.check(list(doc.fields) == list(want), 'fields')
    for name, text in want.items():
        got = doc.fields[name].doc.default
        g.check(got == text, 'default of ' + name)
    # nothing is left behind
    again = schema.doc(depth=1)
    for name, field in again.fields.items():
        g.check(field.doc.default == DEFAULTS[which].get(name), 'default without a call')


WORDS = (('one',), ('one', 'two', 'three'), ('averyverylongword', 'x'), ('a', 'b', 'c', 'd', 'e', 'f', 'g', 'h'))


def shaped(g, low, high):
    """Help keeps within the width and all of its words, whatever the width."""
    width = g.choice('width', tuple(range(low, high + 1)))
    words = g.choice('words', WORDS)
    value = g.choice('value', ('a: <int>', 'a.long.path.to.a.field: [<int>, ...] = 5'))
    indent = g.choice('indent', (0, 2, 6))
    column = g.choice('column', (8, 24))
    described = g.choice('described', (True, False))
    out = marsh.doc.terminal.format_terminal_value(
        value, width=width, description=' '.join(words) if described else None, indent=indent,
        description_indent=column)
    g.assume(indent + max([len(w) for w in value.split()]) <= width)
    g.assume(column + max([len(w) for w in words]) <= width)
    lines = out.split('\n')
    for line in lines:
        g.check(len(line) <= width, 'width')
    g.check(out.split() == value.split() + list(words if described else ()), 'words')
    g.check(out.startswith(' ' * indent + value.split()[0]), 'indent')


def listed(doc, path, depth, out):
    if depth <= 0:
        return
    for name, field in (doc.fields or {}).items():
        here = marsh.path.append(path, name)
        out.append((here, field.type, field.doc.default, depth))
        listed(field.doc, here, depth - 1, out)


def texts(g, kinds, most):
    """The text lists every field with its path, type and default, in order."""
    t = KINDS[g.choice('type', kinds)]
    depth = g.choice('depth', tuple(range(most + 1)))
    prefix = g.choice('prefix', ('', 'cfg', 'a.b'))
    width = g.choice('width', (26, 40, 80, 200))
    marsh.schema.UnmarshalSchema.cache_clear()
    doc = schema_of(t).doc(depth)
    out = marsh.doc.terminal.format_unmarshal_fields(doc, prefix_path=prefix, width=width, depth=depth)
    want = []
    listed(doc, prefix, depth, want)
    blocks = [b for b in out.split('\n\n') if b.strip()]
    g.check(len(blocks) == len(want), 'every field once')
    indents = {}
    for block, (name, type_, default, below) in zip(blocks, want):
        block = block.strip('\n')
        left = len(block) - len(block.lstrip(' '))
        g.check(indents.setdefault(below, left) == left, 'fields of the same depth are below each other')
        text = ' '.join(block.split())
        line = name + ': ' + type_ + (' = ' + default if default else '')
        g.check(text.startswith(line), 'line')
    shown = [indents[d] for d in sorted(indents, reverse=True)]
    for a, b in zip(shown, shown[1:]):
        g.check(a < b, 'deeper fields are further to the right')
    for part in (True, False):
        for described in (True, False):
            full = marsh.doc.terminal.format_unmarshal_help(
                doc, prefix_path=prefix, width=width, depth=depth, omit_type=not part, omit_description=not described)
            head = ([doc.type] if part and doc.type else []) + ([doc.description] if described and doc.description else [])
            g.check(full == '\n\n'.join(head + ([out] if out else [])), 'help')


def app_fn(a: A, n: int, s: str = 'deep', *, o: Optional[B] = None):
    return None


APP = marsh.main(app_fn, help_depth=2)


def printed(g, n):
    """What --help prints: the fields of the path, with the values of the call."""
    where = g.choice('path', ('', 'a', 'a.b', 'o', 'n'))
    argv = ['--help', where] if where else ['--help']
    call = []
    if not where and g.choice('called', (False, True)):
        call = [A(1, B('y')), g.choice('n', tuple(range(-n, n + 1))), g.choice('s', ('s', 'long text'))]
    with CommandLine(argv) as line:
        try:
            APP(*call)
            code = None
        except SystemExit as err:
            code = err.code
    g.check(code == 0, 'status')
    out = ''.join([str(p) for p in line.out.parts])
    want = {'': ('a:', 'a.x:', 'a.b:', 'n:', 's:', 'o:'), 'a': ('x:', 'b:', 'b.y:', 'b.z:'),
            'a.b': ('y:', 'z:'), 'o': ('y:', 'z:'), 'n': ()}[where]
    at = 0
    for name in want:
        at = out.find('  ' + name, at)
        g.check(at >= 0, 'field ' + name)
    if call:
        g.check('n: <int> = ' + str(call[1]) in out, 'default of n')
        g.check('s: <str> = ' + call[2] in out, 'default of s')


def programs():
    """Of types that were not met before, which would be shown without their fields."""
    below = dataclasses.make_dataclass('Below', [('y', str), ('z', int, 3)])
    above = dataclasses.make_dataclass('Above', [('x', int), ('b', below)])

    def documented(a: above, n: int = 3):
        """What the function is for."""
        return None

    def silent(n: int = 3):
        return None

    job = dataclasses.make_dataclass('Job', [('a', above), ('n', int, 3)])
    job.__doc__ = 'What the job is for.'
    return {'documented': (documented, {}), 'silent': (silent, {}), 'config': (lambda job: None, {'config': job})}


def introduced(g, depths):
    """The help of a program has the name and the texts given for it, or those of what it runs, and fields of the depth given."""
    what = g.choice('what', ('documented', 'silent', 'config'))
    more, prog, text, end = {}, None, None, None
    if g.choice('has prog', (False, True)):
        prog = more['prog'] = 'tool'
    if g.choice('has description', (False, True)):
        text = more['description'] = 'As told.'
    if g.choice('has epilog', (False, True)):
        end = more['epilog'] = 'The end.'
    depth = g.choice('depth', depths)
    if depth is not None:
        more['help_depth'] = depth
    deep = 2 if depth is None else depth
    fn, extra = programs()[what]
    more.update(extra)
    app = marsh.main(fn, **more) if what != 'silent' else marsh.main(**more)(fn)
    with CommandLine(['--help']) as line:
        try:
            app()
            code = None
        except SystemExit as err:
            code = err.code
    g.check(code == 0, 'status')
    out = ''.join([str(p) for p in line.out.parts])
    g.check(out.startswith('usage: ' + ('app' if prog is None else prog) + ' '), 'the name of the program')
    at = out.find('\n\n')
    own = {'documented': 'What the function is for.', 'silent': None, 'config': 'What the job is for.'}[what]
    if text is None:
        text = own
    if text is not None:
        g.check(out[at:].startswith('\n\n' + text + '\n\n'), 'the description comes first')
    options = out.find('--config-dir PATH', at + 2)
    g.check(options > 0, 'the options come next')
    last = out.find('\nfields:\n', options)
    g.check((last > 0) == (deep > 0), 'fields are shown')
    if end is not None:
        head = out if last < 0 else out[:last]
        g.check(head.endswith('\n\n' + end + '\n'), 'the epilog comes after the options')
    options = last if last > 0 else len(out)
    fields = out[options:]
    for name, least in (('a', 1), ('a.x', 2), ('a.b', 2), ('a.b.y', 3), ('a.b.z', 3), ('n', 1)):
        there = deep >= least and (what != 'silent' or name == 'n')
        g.check(((' ' + name + ': ') in fields) == there, 'fields down to the depth')


PARTS = {Home: {'h': Animal, 'o': Animal}, Dog: {'n': int, 'd': B}, Cat: {'n': int, 'c': int}, Animal: {'n': int},
         B: {'y': str, 'z': int}}


def components(g, n, most, classes):
    """Components are selected by their names, and listed by them."""
    reset()
    spaces = [marsh.namespaces.new('first', base=Animal), marsh.namespaces.new('second', base=Animal)]
    have = []
    try:
        for i in range(g.choice('count', tuple(range(most + 1)))):
            space = g.choice(f'space{i}', (0, 1) if most < 3 else (0,))
            cls = {'Dog': Dog, 'Cat': Cat, 'Animal': Animal}[g.choice(f'class{i}', classes)]
            name = g.str(f'name{i}', n)
            g.assume(name != '')
            for at, other, _ in have:
                if at == space:
                    g.assume(name != other)
            spaces[space].register(cls, name=name)
            have.append((space, name, cls))
        have = [x for x in have if x[0] == 0] + [x for x in have if x[0] == 1]
        start = g.choice('start', (Home, Animal, Dog))
        fields = [] if start is not Home else [g.choice('field', ('h', 'o'))]
        at = start if start is not Home else Animal
        named = g.choice('named', (True, False))
        if named:
            name = g.str('name', n)
            g.assume(name != '')
            fields.append(name)
            found = None
            for _, other, cls in have:
                if found is None and issubclass(cls, at) and other == name:
                    found = cls
            at = found
            if g.choice('deeper', (True, False)):
                last = g.choice('last', ('n', 'd', 'c'))
                fields.append(last)
                at = PARTS[at].get(last) if at is not None else None
        try:
            got = marsh.schema.UnmarshalSchema(start).select(marsh.path.join_fields(fields))
        except marsh.errors.PathError:
            g.check(at is None, 'a component is not found')
            return
        g.check(at is not None, 'a component that is not there is found')
        if at is None:
            return
        if at is B:
            # an optional one
            g.check(type(got.doc(1).fields) is dict, 'schema of the field')
            return
        g.check(got.value is at, 'schema of the component')
        if not named:
            shown = [f.value for f in got.doc(1).special_fields or ()]
            want = [f'name = "{name}" -> ' for _, name, cls in have if issubclass(cls, at)]
            g.check(len(shown) == len(want), 'components listed')
            if len(shown) == len(want):
                for a, b in zip(shown, want):
                    g.check(a.startswith(b), 'component listed')
    finally:
        reset()


KIND = tuple(KINDS)
HARNESSES = [
    Harness(select, dict(kinds=KIND, n=4), dict(kinds=KIND, n=6), weight=2),
    Harness(docs, dict(kinds=KIND, most=3), dict(kinds=KIND, most=6)),
    Harness(components, dict(n=1, most=2, classes=('Dog', 'Cat', 'Animal')), dict(n=2, most=3, classes=('Dog', 'Cat', 'Animal'))),
    Harness(values, dict(which='two', n=1), name='values_two'),
    Harness(values, dict(which='rest', n=1), dict(which='rest', n=3), name='values_rest'),
    Harness(values, dict(which='open', n=1), name='values_open'),
    Harness(shaped, dict(low=30, high=60), dict(low=9, high=90)),
    Harness(texts, dict(kinds=KIND, most=3), dict(kinds=KIND, most=5)),
    Harness(introduced, dict(depths=(None, 0, 1, 2, 3)), dict(depths=(None, -1, 0, 1, 2, 3, 4))),
    Harness(printed, dict(n=1), dict(n=2)),
]
