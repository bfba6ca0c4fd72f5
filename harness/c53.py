"""C53: names that are not known are refused, and only known ones suggested."""
from typing import Literal

import dataclasses

import marsh
from symx import base
from symx.base import Harness
from harness.world import World

KNOWN = ('size', 'Made', 'a_bc')
SHORT = ('ab', 'cD')


class Base:
    pass


def classes(names):
    return [(n, type('C' + str(i), (Base,), {})) for i, n in enumerate(names)]


def reset():
    for name in list(marsh.namespaces):
        del marsh.namespaces[name]


def structured(names):
    return dataclasses.make_dataclass('Record', [(n, int, 0) for n in names])


def message(err):
    if isinstance(err, KeyError):
        return err.args[0]
    return str(err)


def space(names):
    ns = marsh.namespaces.new('space', base=Base)
    for n, c in classes(names):
        ns.register(c, name=n)
    return ns


# where: what is done with a name, the errors it may end with, how the message begins
def key(names, name):
    marsh.unmarshal(structured(names), {name: 1})


def keys(names, name):
    marsh.unmarshal(structured(names), {names[0]: 2, name: 1})


def argument(names, name):
    code = 'def function(%s): pass' % ', '.join(n + '=0' for n in names)
    env = {}
    exec(code, env)
    marsh.schema.UnmarshalSchema(env['function']).unmarshal({name: 1})


def place(names, name):
    marsh.schema.UnmarshalSchema(structured(names)).select(name)


def namespace(names, name):
    for n in names:
        marsh.namespaces.new(n, base=Base)
    marsh.namespaces[name]


def component(names, name):
    space(names)[name]


def built(names, name):
    space(names).build(name=name)


def chosen(names, name):
    space(names)
    marsh.unmarshal(Base, {'name': name})


def selected(names, name):
    space(names)
    marsh.schema.UnmarshalSchema(Base).select(name)


def literal(names, name):
    marsh.unmarshal(Literal[names], name)


def mixed(names, name):
    marsh.unmarshal(Literal[names + (7, None)], name)


U, K, P = marsh.errors.UnmarshalError, KeyError, marsh.errors.PathError
PLACES = {
    'key': (key, U, 'unknown key'), 'keys': (keys, U, 'unknown key'), 'argument': (argument, U, 'unknown key'),
    'place': (place, P, 'unknown key'), 'namespace': (namespace, K, 'unknown namespace'),
    'component': (component, K, 'unknown name'), 'built': (built, U, 'unknown name'), 'chosen': (chosen, U, 'unknown name'),
    'selected': (selected, P, 'unknown name'), 'literal': (literal, U, None), 'mixed': (mixed, U, None),
}
PLAIN_PATH = ('place', 'selected')


def judge(g, where, names, name, near, candidates):
    """`near`: the only name which may be suggested, and which has to be."""
    reset()
    names = tuple(names)
    if g.symbolic:
        base.EXACT_DIFFLIB = True
    do, error, begin = PLACES[where]
    known = g.Or(*[name == n for n in names])
    try:
        do(names, name)
    except error as err:
        g.check(g.Not(known), 'known names are accepted')
        text = message(err)
    else:
        g.check(known, 'unknown names are refused')
        return
    finally:
        if g.symbolic:
            base.EXACT_DIFFLIB = False
    suggests(g, text, name, begin, near, candidates, '?')


def suggests(g, text, name, begin, near, candidates, end):
    offers = [c for c in candidates if ', did you mean "' + c + '"' + end in text]
    if begin is not None:
        g.check(begin + ' "' + name + '"' in text, 'the name is shown')
    if near is None:
        g.check(len(offers) <= 1, 'one suggestion')
        if 'did you mean' in text:
            g.cover('suggested')
            g.check(len(offers) == 1, 'suggests what is known')
    else:
        g.cover('near')
        g.check(offers == [near], 'suggests the name meant')


def usable(g, where, name):
    if where in PLAIN_PATH:
        g.assume(len(name) > 0)
        for c in name:
            for x in './\\"\'*[] \n\t':
                g.assume(c != x)
    for c in name:
        g.assume(c != '\n')
    g.assume(name != '???')
    if where == 'mixed':        # 7 can be written in more ways
        g.assume(g.And(name.lower() != 'null', name.lower() != 'none', g.Not('7' in name)))


def near_text(g, names, alphabet):
    """A known name with one letter wrong, doubled, missing, or two swapped."""
    meant = g.choice('meant', names)
    slip = g.choice('slip', ('wrong', 'more', 'less', 'swap'))
    at = g.choice('at', tuple(range(len(meant))))
    if slip == 'less':
        return meant, meant[:at] + meant[at + 1:]
    if slip == 'swap':
        g.assume(at + 1 < len(meant))
        return meant, meant[:at] + meant[at + 1] + meant[at] + meant[at + 2:]
    c = g.str('c', 1, 1, alphabet=alphabet)
    return meant, meant[:at] + c + meant[at + (slip == 'wrong'):]


def anything(g, where, n, names, alphabet):
    name = g.str('name', n, alphabet=alphabet)
    usable(g, where, name)
    judge(g, where, names, name, None, [*names, '7', 'None'] if where == 'mixed' else names)


def slip(g, where, names, alphabet):
    meant, name = near_text(g, names, alphabet)
    usable(g, where, name)
    judge(g, where, names, name, meant, names)


def config(g, n, names, alphabet):
    """Config files are found by their name alone; the files beside them are suggested."""
    from marsh import config as C
    if g.symbolic:
        base.EXACT_DIFFLIB = True
    try:
        below = g.choice('below', ('', 'd/', '/'))
        if n:
            name, near = g.str('name', n, 1, alphabet=alphabet), None
        else:
            near, name = near_text(g, names, alphabet)
        for c in name:
            for x in './\0\n':
                g.assume(c != x)
        files = [('d/' * (below == 'd/') + f + '.yaml', 'a: 1') for f in names] + [('d/' * (below == 'd/') + 'readme.txt', '')]
        with World(g, files, dirs=('d',)) as world:
            directory = below if below != '/' else world.root + '/'
            target = directory + name
            known = g.Or(*[name == f for f in names])
            try:
                got = C.find_config(target)
            except marsh.errors.ConfigFileError as err:
                g.check(g.Not(known), 'known names are found')
                text = str(err)
            else:
                g.check(known, 'unknown names are not found')
                return
            shown = directory or './'
            suggests(g, text, name, None, shown + near if near else None, [shown + f for f in names], '')
    finally:
        if g.symbolic:
            base.EXACT_DIFFLIB = False


HARNESSES = [Harness(anything, dict(where=w, n=3, names=SHORT, alphabet='ascii'), dict(where=w, n=4 - (w == 'mixed'), names=SHORT + ('abc',), alphabet='ascii' if w == 'mixed' else 'uni'), name='any_' + w) for w in PLACES]
HARNESSES += [Harness(slip, dict(where=w, names=KNOWN, alphabet='ascii'), dict(where=w, names=KNOWN + ('width', 'rate'), alphabet='uni'), name='slip_' + w) for w in PLACES]
HARNESSES += [Harness(config, dict(n=2, names=SHORT, alphabet='ascii'), dict(n=3, names=SHORT + ('abc',), alphabet='ascii'), name='any_config'),
              Harness(config, dict(n=0, names=KNOWN, alphabet='ascii'), dict(n=0, names=KNOWN + ('width',), alphabet='uni'), name='slip_config')]
