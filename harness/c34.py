"""C34: an entry point calls its function once, with command line over call arguments over defaults."""
import dataclasses
from typing import Dict, List, Optional

import marsh
from symx.base import Harness
from harness import elements as R
from harness.app import launch
from harness.world import World

CALLS = []


def plain(a: int, b: int = 3):
    CALLS.append((a, b))
    return CALLS


def defaults(a: int = 1, b: Optional[int] = None, c: int = 3):
    CALLS.append((a, b, c))
    return CALLS


def star(a: int, b: int = 3, *rest: int, k: int = 4):
    CALLS.append((a, b, rest, k))
    return CALLS


def slash(a: int, b: int = 2, /, c: int = 3, *, k: int):
    CALLS.append((a, b, c, k))
    return CALLS


def every(a: int, /, b: int, *rest: int, k: int = 5, **kw: int):
    CALLS.append((a, b, rest, k, kw))
    return CALLS


def named(*, k: int, m: int = 6):
    CALLS.append((k, m))
    return CALLS


# kind, name, default
REQ = object()
PARAMS = dict(
    plain=(plain, ('pos', 'a', REQ), ('pos', 'b', 3)),
    defaults=(defaults, ('pos', 'a', 1), ('pos', 'b', None), ('pos', 'c', 3)),
    star=(star, ('pos', 'a', REQ), ('pos', 'b', 3), ('args', 'rest', None), ('kw', 'k', 4)),
    slash=(slash, ('only', 'a', REQ), ('only', 'b', 2), ('pos', 'c', 3), ('kw', 'k', REQ)),
    every=(every, ('only', 'a', REQ), ('pos', 'b', REQ), ('args', 'rest', None), ('kw', 'k', 5),
           ('kwargs', 'kw', None)),
    named=(named, ('kw', 'k', REQ), ('kw', 'm', 6)),
)
APPS = {name: marsh.main(p[0]) for name, p in PARAMS.items()}


def reset():
    del CALLS[:]


def digit(g, name):
    """Text of an integer, and the integer."""
    s = g.str(name, 1, 1, alphabet='ascii')
    g.assume(g.And('0' <= s, s <= '9'))
    return s, int(s)


def call_values(g, params, tag, most):
    """Arguments of a call that Python accepts: (args, kwargs); not checked against the hints."""
    order = [p for p in params if p[0] in ('pos', 'only')]
    n = g.choice(tag + 'args', tuple(range(len(order) + 1)))
    rest = 0
    if n == len(order) and any([p[0] == 'args' for p in params]):
        rest = g.choice(tag + 'rest', (0, 1, 2))
    args = [g.str(f'{tag}arg{i}', 2, alphabet='ascii') for i in range(n + rest)]
    kwargs = {}
    for kind, name, _ in params:
        if kind == 'kwargs':
            if g.choice(tag + 'more', (False, True)):
                kwargs['z'] = g.int(tag + 'z')
        elif kind in ('pos', 'kw') and name not in [p[1] for p in order[:n]]:
            if len(kwargs) < most and g.choice(tag + name, (False, True)):
                kwargs[name] = g.int(tag + name)
    return args, kwargs


def line_values(g, params, tag, most):
    """(command line, {name: value} or [values], refused)"""
    named = [p for p in params if p[0] not in ('args', 'kwargs')]
    forms = ('names', 'mapping', 'sequence', 'nothing')
    form = g.choice(tag + 'form', forms)
    if form == 'nothing':
        return [], {}, False
    if form == 'sequence':
        extra = any([p[0] == 'args' for p in params])
        top = len([p for p in named if p[0] != 'kw'] if extra else named)
        n = g.choice(tag + 'len', tuple(range(top + 1 + 2 * extra)))
        pairs = [digit(g, f'{tag}v{i}') for i in range(n)]
        return ['=[' + ','.join([p[0] for p in pairs]) + ']'], [p[1] for p in pairs], False
    texts, values = [], {}
    keys = [p[1] for p in named]
    if params[-1][0] == 'kwargs':
        keys += ['y', 'z']
    for key in keys:
        if len(values) < most and g.choice(tag + 'has ' + key, (False, True)):
            text, v = digit(g, tag + key)
            texts.append((key, text))
            values[key] = v
    refused = False
    fault = g.choice(tag + 'fault', ('none', 'value', 'name'))
    if fault == 'value':
        g.assume(len(texts) > 0)
        texts[-1] = (texts[-1][0], 'x' + texts[-1][1])
        refused = True
    if fault == 'name':
        g.assume(params[-1][0] != 'kwargs')
        texts.append(('unknown', '1'))
        refused = True
    if form == 'names':
        return [k + '=' + t for k, t in texts], values, refused
    g.assume(len(texts) > 0)
    return ['={' + ', '.join([k + ': ' + t for k, t in texts]) + '}'], values, refused


def bind(params, args, kwargs, line):
    """The arguments the function sees; None when one is missing."""
    out = []
    args, kwargs = list(args), dict(kwargs)
    items = list(line) if isinstance(line, list) else []
    values = dict(line) if isinstance(line, dict) else {}
    for kind, name, default in params:
        if kind == 'args':
            out.append(tuple(items + args))
            items, args = [], []
            continue
        if kind == 'kwargs':
            kwargs.update(values)
            out.append(kwargs)
            continue
        if kind == 'kw' and any([p[0] == 'args' for p in params]):
            x, called = REQ, False
        else:
            x = items.pop(0) if items else REQ
            called = bool(args) and kind != 'kw'
        given = REQ
        if called:
            given = args.pop(0)
        if name in kwargs:
            given = kwargs.pop(name)
        if x is REQ and name in values:
            x = values.pop(name)
        if x is REQ:
            x = given
        if x is REQ:
            x = default
        if x is REQ:
            return None
        out.append(x)
    return out


def judge(g, got, want, name):
    if want is None:
        g.cover('refused')
        g.check(got == ('exit', 1), 'a wrong configuration must exit with status 1')
        g.check(len(CALLS) == 0, 'called in spite of an error')
        return
    g.cover('called')
    g.check(got[0] == 'returned', 'not called')
    g.check(len(CALLS) == 1, 'called once')
    if got[0] == 'returned' and len(CALLS) == 1:
        g.check(got[1] is CALLS, 'the result is returned')
        g.observe('arguments', [dict(x) if isinstance(x, dict) else x for x in CALLS[0]])
        g.check(len(CALLS[0]) == len(want), 'arguments')
        for x, y in zip(CALLS[0], want):
            if isinstance(y, dict):
                g.check(g.same(dict(sorted(x.items())), dict(sorted(y.items()))), 'keywords')
            else:
                g.check(g.same(x, y), 'arguments')


def call(g, which, most, calling):
    reset()
    fn, *params = PARAMS[which]
    args, kwargs = call_values(g, params, 'call ', most) if calling else ([], {})
    line, values, refused = line_values(g, params, 'line ', most)
    want = None if refused else bind(params, args, kwargs, values)
    if isinstance(values, list) and len(args) > len([p for p in params if p[0] in ('pos', 'only')]):
        # values for the variable arguments on both sides: only one of them
        g.assume(len(values) <= len([p for p in params if p[0] in ('pos', 'only')]))
    got = launch(APPS[which], line, *args, **kwargs)
    judge(g, got, want, which)


def twice(g, which):
    """A call leaves nothing behind for the next one."""
    reset()
    fn, *params = PARAMS[which]
    args, kwargs = call_values(g, params, 'call ', 1)
    line, values, refused = line_values(g, params, 'line ', 1)
    launch(APPS[which], line, *args, **kwargs)
    reset()
    text, v = digit(g, 'again')
    want = bind(params, [], {}, {params[0][1]: v})
    got = launch(APPS[which], [params[0][1] + '=' + text])
    judge(g, got, want, which)


@dataclasses.dataclass
class Config:
    a: int
    b: Dict[str, int] = dataclasses.field(default_factory=dict)
    c: List[int] = dataclasses.field(default_factory=lambda: [1])


def consume(config):
    CALLS.append(config)
    return CALLS


def direct(*args, **kwargs):
    CALLS.append((args, kwargs))
    return CALLS


CONFIGURED = marsh.main(consume, config=Config)
DIRECT = marsh.main(config=Config)(direct)


def config(g, n):
    """With a config type the function gets one value of that type."""
    reset()
    fault = g.choice('fault', ('none', 'value', 'name', 'missing', 'kind'))
    line = []
    text, a = digit(g, 'a')
    if fault != 'missing':
        line.append('a=' + ('x' if fault == 'value' else '') + text)
    if fault == 'name':
        line.append('d=1')
    if fault == 'kind':
        line = ['=5']
    b = {}
    for i in range(g.choice('bs', tuple(range(n + 1)))):
        key = g.str(f'key{i}', 2, 1, alphabet='ascii')
        for c in key:
            g.assume(g.And('a' <= c, c <= 'z'))
        t, v = digit(g, f'b{i}')
        if fault != 'kind':
            line.append('b.' + key + '=' + t)
            b[key] = v
    c = [1]
    if fault != 'kind' and g.choice('c', (False, True)):
        t, v = digit(g, 'c.0')
        line += ['c=[]', 'c.0=' + t, 'c+=[7]']
        c = [v, 7]
    got = launch(CONFIGURED, line)
    if fault != 'none':
        g.check(got == ('exit', 1), 'a wrong configuration must exit with status 1')
        g.check(len(CALLS) == 0, 'called in spite of an error')
        return
    g.check(got[0] == 'returned' and got[1] is CALLS, 'the result is returned')
    g.check(len(CALLS) == 1, 'called once')
    if len(CALLS) == 1:
        x = CALLS[0]
        g.check(type(x) is Config, 'type')
        g.check(g.same([x.a, x.b, x.c], [a, b, c]), 'values')


def bypassed(g, n):
    """Called with arguments, an entry point with a config type is the plain function."""
    reset()
    k = g.choice('args', tuple(range(n + 1)))
    args = [g.int(f'arg{i}') for i in range(k)]
    kwargs = {}
    if g.choice('keyword', (False, True)):
        kwargs['b'] = g.str('b', 2)
    g.assume(len(args) + len(kwargs) > 0)
    line = g.choice('line', ((), ('a=1',), ('nonsense',), ('--help',)))
    got = launch(DIRECT, line, *args, **kwargs)
    g.check(got[0] == 'returned' and got[1] is CALLS, 'the result is returned')
    g.check(len(CALLS) == 1, 'called once')
    if len(CALLS) == 1:
        g.check(g.same(CALLS[0], (tuple(args), kwargs)), 'values')


def helped(g, which):
    """Asking for help never runs the function."""
    reset()
    where = g.choice('help', ((), ('a',), ('b',), ('unknown',), ('a.b',), ('',)))
    line = ['a=1', '--help', *where] if g.choice('late', (False, True)) else ['-h', *where]
    calling = g.choice('calling', (False, True))
    if which == 'config':
        got = launch(CONFIGURED, line)
    else:
        got = launch(APPS[which], line, *(['1'] if calling and which != 'named' else []))
    g.check(len(CALLS) == 0, 'called')
    g.check(got[0] == 'exit', 'exits')
    bad = where == ('unknown',) or where == ('a.b',)
    bad = bad or (which == 'named' and where and where[0] in ('a', 'b'))
    g.check(got[1] == (1 if bad else 0), 'status')


def raising(g, n):
    """What the function raises is not caught, an exit status not changed."""
    reset()
    kind = g.choice('kind', ('error', 'marsh', 'exit', 'unmarshal'))
    code = g.int('code')
    error = {'error': ValueError('text'), 'marsh': marsh.errors.MarshError('text'),
             'unmarshal': marsh.errors.UnmarshalError('text'), 'exit': SystemExit(code)}[kind]

    def fail(a: int = 1):
        CALLS.append(a)
        raise error
    form = g.choice('form', ('arguments', 'config'))
    app = marsh.main(fail) if form == 'arguments' else marsh.main(fail, config=int)
    got = launch(app, ['a=2'] if form == 'arguments' else ['=2'])
    g.check(len(CALLS) == 1, 'called once')
    if kind == 'exit':
        g.check(got[0] == 'exit' and g.same(got[1], code), 'status')
    else:
        g.check(got[0] == 'raised' and got[1] is error, 'error')


def overrides(g, n):
    """Any text at all on the command line: the function is called or the process exits with an error."""
    reset()
    text = g.str('text', n, alphabet='ascii')
    for c in '@${':
        g.assume(g.Not(c in text))
    first = g.choice('first', (False, True))
    g.assume(g.Not(g.And(text.startswith('-'), g.Or('o' in text, '/' in text, 'h' in text))))      # see C37 and help
    with World(g):
        got = launch(APPS['defaults'], ['a=1', text] if first else [text, 'a=1'])
    if got[0] == 'returned':
        g.cover('called')
        g.check(len(CALLS) == 1, 'called once')
    else:
        g.cover('exit')
        g.check(got[0] == 'exit', 'no raw error')
        help_ = g.Or(text.startswith('-h'), text.startswith('--h'))
        if got[0] == 'exit':
            g.check(g.Or(got[1] != 0, help_), 'status')
            g.check(len(CALLS) == 0, 'called in spite of an error')


def double(g, which):
    """A caller who gives one argument by position and by name is told so, as Python would."""
    reset()
    fn, *params = PARAMS[which]
    order = [p for p in params if p[0] in ('pos', 'only')]
    i = g.choice('argument', tuple([i for i, p in enumerate(order) if p[0] == 'pos']))
    args = [g.str(f'arg{j}', 2, alphabet='ascii') for j in range(i + 1)]
    kwargs = {order[i][1]: g.int('keyword')}
    line, values, refused = line_values(g, params, 'line ', 1)
    got = launch(APPS[which], line, *args, **kwargs)
    g.cover('given twice')
    g.check(len(CALLS) == 0, 'called with one of two values')
    g.check(got[0] == 'raised' and isinstance(got[1], TypeError), 'an argument given twice')


HARNESSES = [Harness(call, dict(which=w, most=1, calling=True), dict(which=w, most=2, calling=True),
                     name='call_' + w, weight=2) for w in PARAMS]
HARNESSES += [Harness(call, dict(which=w, most=2, calling=False), dict(which=w, most=4, calling=False),
                      name='line_' + w) for w in PARAMS]
HARNESSES += [
    Harness(twice, dict(which='star'), name='twice_star'),
    Harness(twice, dict(which='defaults'), name='twice_defaults'),
    Harness(double, dict(which='plain'), name='double_plain'),
    Harness(double, dict(which='star'), name='double_star'),
    Harness(double, dict(which='slash'), name='double_slash'),
    Harness(config, dict(n=1), dict(n=2)),
    Harness(bypassed, dict(n=2), dict(n=3)),
    Harness(helped, dict(which='plain'), name='help_plain'),
    Harness(helped, dict(which='every'), name='help_every'),
    Harness(helped, dict(which='config'), name='help_config'),
    Harness(raising, dict(n=1)),
    Harness(overrides, dict(n=3), dict(n=4)),
]
