"""C36: config files are found by name, refused when ambiguous, and loaded in order."""
import json
import os

import marsh
import yaml
from symx.base import Harness
from harness import elements as R
from harness.world import World

C = marsh.config
EXTS = ('.json', '.yaml', '.yml', '.JSON', '.txt', '')
SUPPORTED = ('.json', '.yaml', '.yml')


def reset():
    clear = getattr(C.config_type_is_supported, 'cache_clear', None)
    if clear is not None:
        clear()


def stem_ext(name):
    """The extension starts at the last dot, unless there are only dots in front of it."""
    i = name.rfind('.')
    if i < 0 or name[:i].strip('.') == '':
        return name, ''
    return name[:i], name[i:]


def supported(ext):
    return ext.lower() in SUPPORTED


def filename(g, tag, n, exts):
    """Any file name: symbolic stem and one of the extensions."""
    name = g.str(tag, n) + g.choice(tag + '.ext', exts)
    g.assume(g.And(g.Not('/' in name), g.Not('\0' in name)))
    g.assume(name != '')
    g.assume(name != '.')
    g.assume(name != '..')
    return name


def find(g, n, files, exts, dirs, target, places):
    """A directory with any file names, any target."""
    reset()
    names = []
    for i in range(files):
        name = filename(g, f'f{i}', n, exts)
        for other in names:
            g.assume(name != other)
        names.append(name)
    isdir = g.choice('directory', dirs)     # number of names that are directories, not files
    where = g.choice('where', places)
    base = {'here': '', 'sub': 'd/', 'dot': './', 'other': 'x/'}.get(where)
    last = g.str('t', target) + g.choice('t.ext', exts)
    g.assume(g.Not('/' in last))
    place = 'd/' if where in ('sub', 'abs') else ''
    if place == '':
        for x in names:
            g.assume(x != 'd')
    w = World(g, [('w/' + place + x, '{}') for x in names[isdir:]],
              ['w', 'w/d'] + ['w/' + place + x for x in names[:isdir]], 'w')
    with w:
        if where == 'abs':
            base = w.root + '/w/d/'
        target = base + last
        name, ext = stem_ext(last)
        if where == 'other':
            want = []
        elif ext != '':
            want = [last] if w.isfile(target) or w.isdir(target) else []
        elif last == '.' or last == '..':
            want = []
        else:
            want = []
            for x in names[isdir:]:
                s, e = stem_ext(x)
                if s == name and supported(e):
                    want.append(x)
        try:
            got = C.find_config(target)
        except marsh.errors.ConfigFileError:
            g.cover('refused')
            g.check(len(want) != 1, 'an existing config is not found')
            return
        g.check(len(want) == 1, 'a missing or ambiguous config is found')
        if len(want) == 1:
            g.cover('found')
            g.observe('base', os.path.basename(got))
            g.check(w.same_file(got, base + want[0]), 'another file is found')


def recognised(g, n):
    """Config types follow the extension of the file name alone, in any case."""
    reset()
    name = g.str('name', n)
    exts = g.choice('ext', ('', '.json', '.JsOn', '.yaml', '.yml', '.YML', '.jsonl', '.yam', 'json'))
    path = name + exts
    stem, ext = stem_ext(path.rpartition('/')[2])
    g.check(C.config_type_is_supported(path) == (ext != '' and supported(ext)), 'supported')
    try:
        schema = C.ConfigSchema(path)
    except (marsh.errors.MarshError, ValueError):
        g.check(g.Not(supported(ext)) if ext != '' else True, 'a supported type is refused')
        return
    g.check(supported(ext), 'an unsupported type is accepted')
    g.check(type(schema) is (C.JSONConfigIO if ext.lower() == '.json' else C.YAMLConfigIO), 'type')


CONTENTS = dict(
    map1={'a': 1, 'b': {'c': [1, 2]}, 's': [1]},
    map2={'a': {'x': None}, 'b': {'c': [3], 'd': 'text'}, '_meta_': {'m': 1}},
    map3={'_meta_': {'m': 2, 'n': [1]}, 's': [2, 3], 'r': '${_meta_.m}'},
    seq=[1, {'a': 2}], seq2=[[3], 'x'], num=7, text='some text', none=None,
    empty={}, nothing=[], meta={'_meta_': 5})


def text(element, path):
    return json.dumps(element) if path.endswith('.json') else yaml.safe_dump(element)


PICKS = ('one', 'd/one', 'one.json', 'two', 'abs:d/two', 'abs:one', '../e/one')
ODD = ('./one', './one.json', 'd/./one', './/d/one', './two', '.././w/one')


def load(g, number, contents, roots, at_):
    """Several configs in order; relative names below the root directory, absolute ones not."""
    reset()
    root = g.choice('root', roots)
    spots = ('one.json', 'd/one.yaml', 'd/two.yml', 'e/one.json')
    inside = {'none': '', 'cwd': '', 'd': 'd/', 'abs': 'd/', 'missing': 'q/', 'rel': 'd/'}[root]
    picks = []
    kinds = {}
    for i in range(g.choice('n', tuple(range(1, number + 1)))):
        at = g.choice(f'at{i}', at_)
        picks.append(at)
    for p in spots:
        kinds[p] = None
    used = []
    for at in picks:
        if at.startswith('abs:'):
            where = at[4:]
        else:
            where = os.path.normpath('w/' + inside + at)
            where = where[2:] if where.startswith('w/') and root != 'missing' else None
        found = [p for p in spots if where is not None and (p == where or p.rpartition('.')[0] == where)]
        used.append(found[0] if found else None)
        if found and kinds[found[0]] is None:
            kinds[found[0]] = g.choice('content ' + found[0], contents)
    keep = g.choice('keep_meta', (False, True))
    concat = g.choice('concatenate', (False, True))
    files = [('w/' + p, text(CONTENTS[k or 'map1'], p)) for p, k in kinds.items()]
    with World(g, files, ['w', 'w/d', 'w/e'], 'w') as w:
        names = [(w.root + '/w/' + at[4:]) if at.startswith('abs:') else at for at in picks]
        rootdir = {'none': None, 'cwd': '.', 'd': 'd', 'abs': w.root + '/w/d', 'missing': 'q',
                   'rel': './d/'}[root]
        try:
            got = C.load(*names, root=rootdir, keep_meta=keep, concatenate=concat)
        except marsh.errors.ConfigFileError:
            g.cover('refused')
            g.check(None in used, 'an existing config is not loaded')
            return
        g.check(None not in used, 'a missing config is loaded')
        if None in used:
            return
        g.cover('loaded')
        order = [CONTENTS[kinds[p]] for p in used]
        e = order[0]
        for x in order[1:]:
            e = R.merged(e, x, concat)
        if isinstance(e, dict):
            m = e.get('_meta_')
            e = dict([(k, m['m'] if isinstance(v, str) and v == '${_meta_.m}' else v)
                      for k, v in e.items()])
            if not keep:
                e.pop('_meta_', None)
        g.check(g.same(R.norm(got), R.norm(e)), 'content')


def written(g, contents):
    """What is written to a config file is what is loaded from it."""
    reset()
    kind = g.choice('content', contents)
    path = g.choice('path', ('out.json', 'out.yaml', 'out.yml', 'd/out.JSON', 'out.txt', 'out'))
    old = g.choice('old', (False, True))
    with World(g, [('w/' + path, 'old: [1, 2, 3, 4, 5, 6, 7, 8, 9]')] if old else [], ['w', 'w/d'], 'w'):
        try:
            C.write(CONTENTS[kind], path)
        except (marsh.errors.MarshError, ValueError):
            g.check(path in ('out.txt', 'out'), 'a supported type is refused')
            return
        g.check(path not in ('out.txt', 'out'), 'an unsupported type is written')
        got = C.load(path, resolve=False, keep_meta=True)
        g.check(g.same(got, CONTENTS[kind]), 'content')


def registered(g, n):
    """A config type registered later is found, also for names that were not found before."""
    reset()
    name = filename(g, 'name', n, ('.cfg',))
    stem, ext = stem_ext(name)
    g.assume(ext == '.cfg')
    before = g.choice('before', (False, True))
    with World(g, [('w/' + name, 'x')], ['w'], 'w') as w:
        if before:
            try:
                C.find_config(stem if stem_ext(stem)[1] == '' else name)
            except marsh.errors.ConfigFileError:
                pass
        registry = C.ConfigSchema.registry
        keep = list(registry.priority)
        try:
            @registry.register
            class Custom(C.ConfigSchema):
                @classmethod
                def match(cls, value):
                    return C.get_ext(value) == '.cfg'

                def loads(self, encoded):
                    return {'custom': encoded}
            g.assume(stem_ext(stem)[1] == '')
            try:
                got = C.load(stem)
            except marsh.errors.ConfigFileError:
                g.fail('a registered config type is not found')
                return
            g.check(g.same(got, {'custom': 'x'}), 'content')
        finally:
            for x in [x for x in registry.priority if x not in keep]:
                del registry.priority[[*registry.priority].index(x)]


MANY = tuple(CONTENTS)
ALL = ('here', 'sub', 'dot', 'abs', 'other')
HARNESSES = [
    Harness(find, dict(n=2, files=2, exts=('.json', '.yml', ''), dirs=(0, 1), target=2, places=('here', 'sub')),
            dict(n=2, files=3, exts=('.json', '.yml', ''), dirs=(0, 1), target=3, places=('here', 'sub')), weight=3),
    Harness(find, dict(n=1, files=2, exts=EXTS, dirs=(0,), target=1, places=('here',)),
            dict(n=2, files=2, exts=EXTS, dirs=(0, 2), target=2, places=('here', 'sub')), name='find_exts', weight=2),
    Harness(find, dict(n=2, files=1, exts=('.json', ''), dirs=(0, 1), target=2, places=ALL),
            dict(n=2, files=2, exts=('.json', ''), dirs=(0, 1), target=3, places=ALL), name='find_places'),
    Harness(recognised, dict(n=3), dict(n=6)),
    Harness(load, dict(number=1, contents=MANY, roots=('none', 'cwd', 'd', 'abs', 'missing', 'rel'), at_=PICKS + ODD),
            name='load_one'),
    Harness(load, dict(number=2, contents=('map1', 'map2', 'map3', 'seq'), roots=('none', 'abs'), at_=PICKS),
            dict(number=3, contents=('map1', 'map2', 'map3', 'seq'), roots=('none', 'abs'), at_=PICKS),
            name='load_many', weight=2),
    Harness(load, dict(number=4, contents=('map1', 'map3', 'num'), roots=('none',), at_=('one', 'd/one')),
            dict(number=5, contents=('map1', 'map2', 'map3', 'seq', 'num'), roots=('d',), at_=('one', 'two')), name='load_row'),
    Harness(written, dict(contents=MANY)),
    Harness(registered, dict(n=2), dict(n=4)),
]
