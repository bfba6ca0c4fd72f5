"""C37: an entry point runs in its output directory and always leaves it again."""
import datetime
import json
import os

import marsh
import yaml
from symx.base import Harness
from harness.app import CommandLine, launch
from harness.world import World

C = marsh.config
SEEN = []
PLAN = {}


class Boom(Exception):
    pass


def work(a: int, b: str = 'z'):
    """Notes where it runs, then does what the plan says."""
    SEEN.append((PLAN['world'].cwd(), a, b))
    then = PLAN['then']
    if then == 'raise':
        raise Boom()
    if then == 'exit':
        raise SystemExit(3)
    if then == 'interrupt':
        raise KeyboardInterrupt()
    if then == 'marsh':
        raise marsh.errors.UnmarshalError('text')
    if then == 'move':
        os.chdir('..')
    if then == 'up':
        os.chdir(PLAN['world'].root)
    return SEEN


APP = marsh.main(work)
CONFIGURED = marsh.main(lambda config: work(**config), config=dict)


def reset():
    del SEEN[:]
    PLAN.clear()


OUTPUTS = dict(
    none=None, new='o', deep='o/p/q', there='d', above='../o', dotted='./o/', here='.', abs='{root}/x/y',
    percent='o%%', year='runs/%Y', dollar='$HOME/o', tilde='~/o', odd='~', bare='', blocked='f', under='f/o')


def expected(start, path, root):
    """The directory below the root in which the function runs."""
    if path is None:
        return start
    if path.startswith(root):
        return path[len(root) + 1:]
    return os.path.normpath(start + '/' + path.replace('%%', '%'))


def directory(g, thens, outputs, starts, lines):
    then = g.choice('then', thens)
    output = g.choice('output', outputs)
    start = g.choice('start', starts)
    kind = g.choice('line', lines)
    form = g.choice('form', ('arguments', 'config'))
    line = {'good': ['a=2'], 'bad': ['a=x'], 'missing': [], 'unknown': ['a=2', 'q=1'], 'path': ['a=1', 'a.b=1'],
            'file': ['@c'], 'nofile': ['@gone']}[kind]
    if form == 'config':
        g.assume(kind in ('good', 'path', 'file', 'nofile'))
    reset()
    files = [('w/f', 'text'), ('w/e/f', 'text'), ('w/d/f', 'text'), ('w/c.json', '{"a": 4}'), ('w/e/c.json', '{"a": 5}'),
             ('w/d/c.json', '{"a": 6}')]
    with World(g, files, ['w', 'w/d', 'w/e', 'w/e/d'], start) as w:
        PLAN.update(then=then, world=w)
        path = OUTPUTS[output]
        if path is not None:
            path = path.replace('{root}', w.root)
            extra = [g.choice('spelling', ('-o', '--output')), path] if path else ['-o']
            if path and g.choice('joined', (False, True)):
                extra = ['--output=' + path]
            line = line + extra if g.choice('last', (False, True)) or not path else extra + line
        try:
            got = launch(APP if form == 'arguments' else CONFIGURED, line)
        except KeyboardInterrupt:
            got = ('interrupted', None)
        if path is None and then in ('move', 'up') and kind in ('good', 'file'):
            after = os.path.normpath(start + '/..') if then == 'move' else ''
            g.check(w.cwd() == ('' if after == '.' else after), 'a move of the function is its own')
        else:
            g.check(w.cwd() == start, 'the working directory is restored')
        if kind not in ('good', 'file'):
            g.check(got == ('exit', 1), 'a wrong configuration must exit with status 1')
            g.check(len(SEEN) == 0, 'called in spite of an error')
            return
        if output in ('blocked', 'under'):
            g.check(got == ('exit', 1), 'an impossible directory must exit with status 1')
            g.check(len(SEEN) == 0, 'called in spite of an error')
            return
        g.cover('ran')
        g.check(len(SEEN) == 1, 'called once')
        if len(SEEN) != 1:
            return
        where, a, b = SEEN[0]
        if output == 'year':
            year = datetime.datetime.now(datetime.timezone.utc).year
            g.check(where in [start + '/runs/' + str(y) for y in (year - 1, year, year + 1)], 'directory')
        elif output == 'bare':
            head, _, last = where.rpartition('/')
            g.check(head == start + '/jobs' and len(last) > 0, 'directory')
        else:
            g.check(where == expected(start, path, w.root), 'directory')
        g.check(w.isdir(w.root + '/' + where), 'the directory stays')
        g.check(a == (2 if kind == 'good' else {'w': 4, 'w/e': 5, 'w/d': 6}[start]),
                'configs are read where the program was started')
        if then == 'raise':
            g.check(got[0] == 'raised' and type(got[1]) is Boom, 'outcome')
        elif then == 'marsh':
            g.check(got[0] == 'raised' and type(got[1]) is marsh.errors.UnmarshalError, 'outcome')
        elif then == 'exit':
            g.check(got == ('exit', 3), 'outcome')
        elif then == 'interrupt':
            g.check(got[0] == 'interrupted', 'outcome')
        else:
            g.check(got == ('returned', SEEN), 'outcome')


def shown(app, argv):
    """What a run comes to and what it prints."""
    with CommandLine(argv) as io:
        try:
            return ('returned', app()), ''.join(io.out.parts)
        except SystemExit as err:
            return ('exit', err.code), ''.join(io.out.parts)
        except Exception as err:
            return ('raised', err), ''.join(io.out.parts)


def saved(g, outs, outputs):
    """The written configuration is the one in use, in the output directory, and reproduces the run."""
    reset()
    out = g.choice('out', outs)
    output = g.choice('output', outputs)
    form = g.choice('form', ('arguments', 'config'))
    line = g.choice('line', ((), ('a=2',), ('a=2', 'b=text'), ('={a: 3}',), ('@c', 'b=1.5'), ('=[3, y]',),
                             ('_meta_.x=7', 'a=${_meta_.x}', 'b=null'), ('a=x',)))
    if form == 'config':
        g.assume(line and line[0] != '=[3, y]')
    late = g.choice('late', (False, True))
    start = 'w'
    with World(g, [('w/f', 'text'), ('w/c.json', '{"a": 4, "_meta_": {"m": 1}}')], ['w', 'w/d'], start) as w:
        PLAN.update(then='return', world=w)
        extra = ['-o', OUTPUTS[output]] if output != 'none' else []
        full = out.replace('{root}', w.root)
        extra += ['--config-out', full] if full else ['--config-out']
        argv = extra + ['-c', '.'] + list(line) if late or not full else list(line) + extra
        got, out_text = shown(APP if form == 'arguments' else CONFIGURED, argv)
        g.check(w.cwd() == start, 'the working directory is restored')
        inside = 'w/o' if output == 'new' else 'w'
        target = full if full.startswith('/') else w.root + '/' + inside + '/' + full
        bad = out in ('f/x.json', 'x.txt', 'q/x.json', 'x') or out == 'f' or out == 'd'
        want = {(): None, ('a=2',): {'a': 2}, ('a=2', 'b=text'): {'a': 2, 'b': 'text'}, ('={a: 3}',): {'a': 3},
                ('@c', 'b=1.5'): {'a': 4, 'b': 1.5}, ('=[3, y]',): [3, 'y'],
                ('_meta_.x=7', 'a=${_meta_.x}', 'b=null'): {'a': 7, 'b': None}, ('a=x',): {'a': 'x'}}[tuple(line)]
        if bad:
            g.check(got == ('exit', 1), 'an impossible file must exit with status 1')
            g.check(len(SEEN) == 0, 'called in spite of an error')
            return
        if want is None:
            g.check(got == ('exit', 1), 'status')
            return
        if full and full != '-':
            text = w.text(target)
            g.check(text is not None, 'written')
            if text is not None:
                loaded = json.loads(text) if target.endswith('.json') else yaml.safe_load(text)
                g.check(g.same(loaded, want), 'written configuration')
                g.check(bool(out_text) == (got[0] == 'exit'), 'nothing but errors is printed')
        elif got[0] == 'returned':
            g.cover('printed')
            g.check(g.same(yaml.safe_load(out_text), want), 'printed configuration')
        if form == 'config':
            g.check(got[0] == 'returned' or want.get('a') == 'x', 'called')


def again(g, outs):
    """Running with the written configuration gives the function the same arguments."""
    reset()
    out = g.choice('out', outs)
    line = g.choice('line', (('a=2',), ('a=2', 'b=text'), ('={a: 3}',), ('@c', 'b="1"'), ('=[3, y]',),
                             ('_meta_.x=7', 'a=${_meta_.x}'), ('a=1', 'b="null"'), ('a=1', 'b="1: 2"'),
                             ('a=1', 'b=???'), ('a=1', 'b=" x"')))
    with World(g, [('w/c.json', '{"a": 4, "_meta_": {"m": 1}}')], ['w'], 'w') as w:
        PLAN.update(then='return', world=w)
        first = launch(APP, list(line) + ['--config-out', out])
        g.check(first == ('returned', SEEN), 'first')
        g.check(len(SEEN) == 1, 'first')
        second = launch(APP, ['@' + out])
        g.check(second == ('returned', SEEN), 'second')
        g.check(len(SEEN) == 2, 'second')
        if len(SEEN) == 2:
            g.check(g.same(SEEN[0], SEEN[1]), 'same arguments')


def nested(g, depth):
    """Entry points inside of entry points return to the directory of the outer one."""
    reset()
    with World(g, [], ['w'], 'w') as w:
        trail = []
        outputs = [g.choice(f'o{i}', (None, f'o{i}', '..')) for i in range(depth)]
        raises = g.choice('raises', (None, *range(depth)))

        def level(i):
            def fn():
                trail.append(w.cwd())
                if i + 1 < depth:
                    launch(marsh.main(level(i + 1)), ['-o', outputs[i + 1]] if outputs[i + 1] else [])
                    g.check(w.cwd() == trail[i], 'inner directory is left')
                if raises == i:
                    raise Boom()
            return fn
        launch(marsh.main(level(0)), ['-o', outputs[0]] if outputs[0] else [])
        g.check(w.cwd() == 'w', 'the working directory is restored')
        at = 'w'
        for i in range(depth):
            at = os.path.normpath((at or '.') + '/' + (outputs[i] or '.'))
            at = '' if at == '.' else at
            if at.startswith('..'):
                g.assume(False)
            g.check(trail[i] == at, 'directory')


def target(fs_files, start, path):
    """Directory below the root that `path` names, '' for the root; None when a file is in the way."""
    at = [x for x in start.split('/') if x != '']
    for name in path.split('/'):
        if name == '' or name == '.':
            continue
        if name == '..':
            if not at:
                return None
            at = at[:-1]
            continue
        at = at + [name]
        if '/'.join(at) in fs_files:
            return None
    return '/'.join(at)


def any_output(g, n, alphabet):
    """The output directory is any text; so is the argument of the function."""
    reset()
    start = g.choice('start', ('w', 'w/e'))
    path = g.str('path', n, 1, alphabet=alphabet)
    for c in path:
        g.assume(g.Or(g.And('a' <= c, c <= 'z'), c == '.', c == '/', c == '_', c == '-', c == '%', c == ' ', c == '=', c == '$', c == '~', c == '{', c == '}', c == '*'))
    g.assume(g.Not(path.startswith('/')))
    g.assume(g.Not(path.startswith('-')))
    g.assume(g.Or(g.Not('%' in path), path.replace('%%', '') == path.replace('%', '')))
    path_ = path.replace('%%', '%')
    a = g.str('a', 1, 1, alphabet='ascii')
    then = g.choice('then', ('return', 'raise'))
    with World(g, [('w/f', 'text'), ('w/e/f', 'text')], ['w', 'w/e', 'w/e/d'], start) as w:
        PLAN.update(then=then, world=w)
        want = target(('w/f', 'w/e/f'), start, path_)
        if want is None:
            g.assume(g.Not('..' in path))
        got = launch(APP, ['-o', path, 'a=' + a])
        g.check(w.cwd() == start, 'the working directory is restored')
        good = g.And('0' <= a, a <= '9')
        if want is None:
            g.check(got == ('exit', 1), 'an impossible directory must exit with status 1')
            g.check(len(SEEN) == 0, 'called in spite of an error')
        elif good:
            g.check(got[0] == ('returned' if then == 'return' else 'raised'), 'outcome')
            g.check(len(SEEN) == 1, 'called once')
            if len(SEEN) == 1:
                g.check(SEEN[0][0] == want, 'directory')
                g.check(SEEN[0][1] == int(a), 'argument')
        else:
            g.check(got == ('exit', 1), 'a wrong configuration must exit with status 1')
            g.check(len(SEEN) == 0, 'called in spite of an error')


THENS = ('return', 'raise', 'exit', 'interrupt', 'marsh', 'move', 'up')
LINES = ('good', 'bad', 'missing', 'unknown', 'path', 'file', 'nofile')
HARNESSES = [
    Harness(directory, dict(thens=THENS, outputs=tuple(OUTPUTS), starts=('w', 'w/e'), lines=('good', 'file')), weight=2),
    Harness(directory, dict(thens=('return', 'raise'), outputs=('none', 'new', 'abs', 'blocked'), starts=('w',),
                            lines=LINES),
            dict(thens=THENS, outputs=tuple(OUTPUTS), starts=('w', 'w/d', 'w/e'), lines=LINES), name='refused'),
    Harness(saved, dict(outs=('x.yaml', 'x.json', '{root}/w/d/x.yml', 'f/x.json', 'x.txt', 'q/x.json', '-', ''),
                        outputs=('none', 'new'))),
    Harness(again, dict(outs=('x.yaml', 'x.json'))),
    Harness(any_output, dict(n=3, alphabet='ascii'), dict(n=5, alphabet='ascii')),
    Harness(nested, dict(depth=2), dict(depth=3)),
]
