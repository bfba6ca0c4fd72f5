"""C47: logging is configured once, as asked on the command line, before the function runs."""
import logging
from typing import Dict

import marsh
from symx.base import Harness
from harness.app import launch

LEVELS = ('DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL', 'NOTSET')
NAMES = LEVELS + ('WARN', 'FATAL', 'info', '10', '')
DONE = []


class Result:
    pass


RESULT = Result()


def work(x: int = 1):
    DONE.append(('work', x))
    return RESULT


def fails(x: int = 1):
    DONE.append(('work', x))
    raise KeyError('from the function')


def typed(config):
    DONE.append(('work', config.get('x', 1)))
    return RESULT


APPS = {
    (name, on): marsh.main(fn, **more, **({'setup_logging': True} if on else {}))       # off unless asked for
    for name, fn, more in (('args', work, {}), ('fails', fails, {}), ('config', typed, {'config': Dict[str, int]}))
    for on in (False, True)
}


STAND_IN = compile('def basicConfig(**kw):\n    return _verif_basic(**kw)', 'stand_in', 'exec').co_consts[0]


class Recorder:
    """Stands in for the function of logging that configures it, by whatever name marsh knows it."""

    def __enter__(self):
        self.fn = logging.basicConfig
        self.before = self.fn.__code__
        self.fn.__globals__['_verif_basic'] = self.basic
        self.fn.__code__ = STAND_IN
        del DONE[:]
        return self

    def __exit__(self, *a):
        self.fn.__code__ = self.before

    def basic(self, **kw):
        DONE.append(('logging', kw))


def given(g, name, values):
    """An option in one of the ways to write it."""
    form = g.choice(name + '.form', ('none', 'two', 'one'))
    if form == 'none':
        return [], None
    value = values()
    if form == 'two':
        return ['--logging-' + name, value], value
    return ['--logging-' + name + '=' + value], value


def setup(g, n, apps):
    """The level and format asked for, or the defaults, are what logging is configured with."""
    which = g.choice('app', apps)
    a, level = given(g, 'level', lambda: g.choice('level', NAMES))
    b, form = given(g, 'format', lambda: g.str('format', n))
    if form is not None and len(b) == 2:
        g.assume(not form.startswith('-'))
    x = g.int('x', 0, 9)
    over = g.choice('override', ('none', 'before', 'after'))
    word = ['x=' + str(x)]
    argv = {'none': [], 'before': word, 'after': []}[over] + (a + b if g.choice('swap', (False, True)) else b + a) + (word if over == 'after' else [])
    call = g.choice('call', ('nothing', 'args', 'kwargs') if which != 'config' else ('nothing',))
    with Recorder():
        got = launch(APPS[which, True], argv, *([7] if call == 'args' else []), **({'x': 7} if call == 'kwargs' else {}))
        done = list(DONE)
    if level is not None and level not in LEVELS:
        g.check(got == ('exit', 2), 'refused')
        g.check(not done, 'nothing done')
        return
    g.check(len(done) == 2, 'once each')
    g.check(done[0][0] == 'logging' and done[1][0] == 'work', 'logging first')
    kw = done[0][1]
    g.check(sorted(kw) == ['format', 'level'], 'options')
    g.check(kw['level'] in (('INFO', logging.INFO) if level is None else (level, getattr(logging, level))), 'level')
    if form is None:
        g.check('%(message)s' in kw['format'], 'default format')
    else:
        g.check(g.same(kw['format'], form), 'format')
    g.check(done[1][1] == (x if over != 'none' else 1 if call == 'nothing' else 7), 'argument')
    if which == 'fails':
        g.check(got[0] == 'raised' and type(got[1]) is KeyError, 'exception')
    else:
        g.check(got[0] == 'returned' and got[1] is RESULT, 'result')


def spaceless(g, n):
    """argparse reads words with a space that are no option as overrides."""
    text = g.str('format', n)
    g.assume(' ' not in text)
    return text


def alone(g, n):
    """Without being asked to, an entry point leaves logging alone and does not know the options."""
    which = g.choice('app', ('args', 'config'))
    kind = g.choice('argv', ('none', 'level', 'format', 'override'))
    argv = {'none': lambda: [], 'level': lambda: ['--logging-level', g.choice('level', LEVELS)],
            'format': lambda: ['--logging-format=' + spaceless(g, n)], 'override': lambda: ['x=3']}[kind]()
    with Recorder():
        got = launch(APPS[which, False], argv)
        done = list(DONE)
    if kind in ('level', 'format'):
        g.check(got == ('exit', 2) and not done, 'refused')
    else:
        g.check(got[0] == 'returned' and done == [('work', 3 if kind == 'override' else 1)], 'ran')


def not_run(g, n):
    """Help and a wrong configuration do not call the function, whatever is said about logging."""
    which = g.choice('app', ('args', 'config'))
    a, level = given(g, 'level', lambda: g.choice('level', LEVELS))
    end, status = g.choice('end', ((['--help'], 0), (['x=zz'], 1), (['x=['], 1), (['x'], 1)))
    with Recorder():
        got = launch(APPS[which, True], a + end)
        done = list(DONE)
    g.check(got == ('exit', status), 'status')
    g.check(not [d for d in done if d[0] == 'work'], 'not called')
    g.check(len(done) <= (0 if status == 0 else 1), 'configured at most once')


def passed_on(g):
    """Called with arguments an entry point for a configuration is just the function."""
    c = {'x': g.int('x')}
    with Recorder():
        got = launch(APPS['config', True], ['x=5', '--logging-level', 'ERROR'], c)
        done = list(DONE)
    g.check(got[0] == 'returned' and len(done) == 1 and done[0][0] == 'work', 'only called')
    g.check(done[0][1] == c['x'], 'value')


HARNESSES = [
    Harness(setup, dict(n=2, apps=('args',)), dict(n=4, apps=('args', 'fails', 'config'))),
    Harness(setup, dict(n=1, apps=('fails', 'config')), name='setup_others'),
    Harness(alone, dict(n=2), dict(n=4)),
    Harness(not_run, dict(n=2), dict(n=2)),
    Harness(passed_on),
]
