"""C35: the configuration of an entry point is its overrides, applied from left to right."""
import argparse
import json

import marsh
import yaml
from symx.base import Harness
from harness import elements as R
from harness.world import World

ASSUMPTIONS = ['strings hold no variable interpolation, except where a harness writes one itself: '
               'interpolation is performed by omegaconf']

EP = marsh.main(lambda **kw: kw)


class Refused(Exception):
    pass


def fields_of(path):
    return list(marsh.path.split(path))


def apply(e, op, path, value):
    """One override on the configuration so far."""
    fs = fields_of(path)
    try:
        if op == '~':
            if len(fs) == 0 or R.missing(e):
                raise R.Bad('nothing to remove')
            return R.drop(e, fs)
        return R.put(e, fs, value, op[0] == '+')
    except R.Bad:
        raise Refused from None


def final(e):
    if R.is_map(e):
        return dict([(k, v) for k, v in e.items() if k != '_meta_'])
    return e


def check(g, overrides, want, root=None):
    """`want` is None when the configuration is refused."""
    args = argparse.Namespace(path=root, overrides=overrides)
    try:
        got = EP.load_config(args)
    except marsh.errors.MarshError:
        g.cover('refused')
        g.check(want is None, 'a legal configuration is refused')
        return
    g.cover('loaded')
    g.check(want is not None, 'an illegal configuration is loaded')
    if want is None:
        return
    g.observe('config', R.norm(got))
    g.check(g.same(R.norm(got), R.norm(want[0])), 'configuration')


def fold(g, steps, paths, ops, values, textmax=0):
    """A sequence of overrides; the scalar values are any strings."""
    e = marsh.MISSING
    texts = []
    n = g.choice('n', tuple(range(1, steps + 1)))
    want = ()
    for i in range(n):
        op = g.choice(f'op{i}', ops)
        path = g.choice(f'path{i}', paths)
        text, value = '', None
        if op != '~':
            text = g.choice(f'value{i}', values)
            if text == 'any':
                text = g.str(f'text{i}', textmax, alphabet='ascii')
                for c in '"\'\\()[]{}$':
                    g.assume(g.Not(c in text))
                try:
                    value = marsh.parse.element(text)
                except marsh.errors.MarshError:
                    g.assume(False)
            else:
                value = marsh.parse.element(text)
        texts.append(op + path if op == '~' else path + op + text)
        if op == '~' and path == '':
            want = None       # not an override
        if want is not None:
            try:
                e = apply(e, op, path, value)
            except Refused:
                want = None
    check(g, texts, (final(e),) if want is not None else None)


def none(g):
    """No overrides: nothing is configured."""
    got = EP.load_config(argparse.Namespace(path=None, overrides=[]))
    g.check(R.missing(got), 'missing')


def any_path(g, n, steps):
    """Paths are any strings of letters, digits and dots."""
    e = marsh.MISSING
    texts = []
    want = ()
    for i in range(steps):
        path = g.str(f'p{i}', n, alphabet='ascii')
        for c in path:
            g.assume(g.Or(c == '.', g.And('a' <= c, c <= 'z'), g.And('0' <= c, c <= '9'), c == '_'))
        v = g.choice(f'v{i}', ('17', '[1]', '{k: 2}'))
        texts.append(path + '=' + v)
        if want is not None:
            try:
                e = apply(e, '=', path, marsh.parse.element(v))
            except Refused:
                want = None
    check(g, texts, (final(e),) if want is not None else None)


def split_up(g, n, where):
    """A mapping set as one value is the same as setting each of its values."""
    path = g.choice('path', where)
    ks = []
    for i in range(2):
        k = g.str(f'k{i}', n, 1, alphabet='ascii')
        for c in k:
            g.assume(g.Or(g.And('a' <= c, c <= 'z'), c == '_'))
        ks.append(k)
    g.assume(ks[0] != ks[1])
    one = EP.load_config(argparse.Namespace(path=None, overrides=[
        path + '={' + ks[0] + ': 1, ' + ks[1] + ': x}']))
    dot = '.' if path else ''
    two = EP.load_config(argparse.Namespace(path=None, overrides=[
        path + dot + ks[0] + '=1', path + dot + ks[1] + '=x']))
    g.check(g.same(one, two), 'same')


CONTENTS = dict(
    flat={'a': 1, 's': [1]}, deep={'a': {'b': 2, 'c': [3]}, '_meta_': {'m': 5}}, seq=[4, {'a': 5}],
    num=6, none=None, inter={'_meta_': {'m': 7}, 'r': '${_meta_.m}'})


def resolved(e):
    """The files resolve their own interpolations."""
    if R.is_map(e) and e.get('r') == '${_meta_.m}':
        e = dict(e)
        e['r'] = e['_meta_']['m']
    return e


def configs(g, steps, contents, paths):
    """Values and config files in any order, below a root directory or not."""
    root = g.choice('root', (None, 'd', 'abs'))
    picks = {}
    for name in ('one', 'two'):
        picks[name] = g.choice(name, contents)
    texts = []
    e = marsh.MISSING
    want = ()
    n = g.choice('n', tuple(range(1, steps + 1)))
    for i in range(n):
        op = g.choice(f'op{i}', ('@', '+@', '=', '~') if i else ('@', '+@', '='))
        path = g.choice(f'path{i}', paths)
        if op == '~':
            texts.append('~' + path)
            if path == '':
                want = None
            v = None
        elif op == '=':
            texts.append(path + '={a: 8}')
            v = {'a': 8}
        else:
            names = g.choice(f'names{i}', (('one',), ('two',), ('one', 'two.yaml'), ('two', 'one'), ('gone',)))
            texts.append(path + op + ','.join(names))
            if names == ('gone',):
                want = None
                v = None
            else:
                v = CONTENTS[picks[names[0][:3]]]
                for x in names[1:]:
                    v = R.merged(v, CONTENTS[picks[x[:3]]], True)
                v = resolved(v)
        if want is not None:
            try:
                e = apply(e, op, path, v)
            except Refused:
                want = None
    here, other = ('w/d/', 'w/') if root else ('w/', 'w/d/')
    files = [(here + 'one.json', json.dumps(CONTENTS[picks['one']])),
             (here + 'two.yaml', yaml.safe_dump(CONTENTS[picks['two']])),
             (other + 'one.json', '"wrong"'), (other + 'gone.yml', '1')]
    with World(g, files, ['w', 'w/d'], 'w') as w:
        check(g, texts, (final(e),) if want is not None else None,
              w.root + '/w/d' if root == 'abs' else root)


def interpolation(g):
    """Interpolations see the final configuration, meta data included, whatever the order."""
    x = g.choice('x', ('5', 'text', 'null', 'true', '1.5'))
    parts = ['_meta_.v=' + x, 'a.b=${_meta_.v}', 'c=${a.b}', '_meta_.v+=' + x]
    picks = g.choice('order', ((0, 1, 2), (1, 0, 2), (2, 1, 0), (2, 0, 1), (1, 2, 3), (0, 1, 2, 3)))
    v = marsh.parse.element(x)
    got = EP.load_config(argparse.Namespace(path=None, overrides=[parts[i] for i in picks]))
    g.check(g.same(got, {'a': {'b': v}, 'c': v}) if 1 in picks and picks.index(1) < 2 and
            (2 not in picks or picks.index(1) < picks.index(2)) else
            g.same(dict(sorted(got.items())), {'a': {'b': v}, 'c': v}), 'resolved')


def file_meta(g):
    """Meta data of a loaded file is there for the overrides that follow; only the top one is gone in the end."""
    path, at = g.choice('path', (('', ''), ('a', 'a.')))
    op = g.choice('op', ('@', '+@'))
    v = g.choice('v', ('text', '', 7, None, False, [1, {'x': 2}], {'k': 1}))
    then = g.choice('then', ('none', 'use', 'remove', 'extend', 'again', 'gone'))
    meta = {'m': v}
    texts = [path + op + 'one']
    want = {'r': 1, '_meta_': meta}
    if then == 'use':
        texts.append('c=${' + at + '_meta_.m}')
    elif then == 'remove':
        texts.append('~' + at + '_meta_')
        del want['_meta_']
    elif then == 'extend':
        texts.append(at + '_meta_.k=2')
        texts.append('c=${' + at + '_meta_.k}')
        want['_meta_'] = {'m': v, 'k': 2}
    elif then == 'again':
        texts.append(path + '+@one')
        want['_meta_'] = meta
    elif then == 'gone':
        texts.append('~' + at + '_meta_.no')
    want = {'a': want} if path else {k: x for k, x in want.items() if k != '_meta_'}
    if then in ('use', 'extend'):
        want['c'] = v if then == 'use' else 2
    with World(g, [('w/one.json', '{"r": 1, "_meta_": {"m": ' + json.dumps(v) + '}}')], ['w'], 'w'):
        check(g, texts, (want,) if then != 'gone' else None)


def malformed(g, n):
    """What is not an override is refused, before and after others."""
    text = g.str('text', n, alphabet='ascii')
    try:
        marsh.parse.override(text)
    except marsh.errors.MarshError:
        pass
    else:
        g.assume(False)
    at = g.choice('at', (0, 1))
    overrides = [text, 'a=1'] if at == 0 else ['a=1', text]
    try:
        EP.load_config(argparse.Namespace(path=None, overrides=overrides))
        loaded = True
    except marsh.errors.MarshError:
        loaded = False
    g.check(not loaded, 'malformed')


VALUES = ('any', '{x: 1, y: [2]}', '[3, 4]')
PATHS = ('', 'a', 'a.b', 'a.0', '_meta_', '_meta_.x', 'b')
HARNESSES = [
    Harness(fold, dict(steps=2, paths=('', 'a', 'a.b', 'a.0', '_meta_'), ops=('=', '+=', '~'), values=VALUES, textmax=1),
            dict(steps=2, paths=PATHS, ops=('=', '+=', '~'), values=VALUES, textmax=2), weight=2),
    Harness(fold, dict(steps=3, paths=('a', 'a.b', '_meta_.x'), ops=('=', '+=', '~'), values=('{x: 1}', '[3]')),
            dict(steps=3, paths=PATHS, ops=('=', '+=', '~'), values=('{x: 1}', '[3]', '5')), name='fold_long', weight=2),
    Harness(none),
    Harness(any_path, dict(n=3, steps=2), dict(n=4, steps=2)),
    Harness(split_up, dict(n=2, where=('', 'm', 'm.n')), dict(n=3, where=('', 'm', 'm.n'))),
    Harness(configs, dict(steps=2, contents=('deep', 'seq'), paths=('', 'a')),
            dict(steps=2, contents=tuple(CONTENTS), paths=('', 'a', 'a.b')), weight=2),
    Harness(configs, dict(steps=1, contents=tuple(CONTENTS), paths=('', 'a', 'a.b', '.')), name='configs_one'),
    Harness(interpolation),
    Harness(file_meta),
    Harness(malformed, dict(n=3), dict(n=5)),
]
