"""Shared generators and reference semantics for the element harnesses."""
import dataclasses

import marsh


def leaf(g):
    """Terminals: symbolic int, None, symbolic str (covers the '???' marker), missing markers."""
    def make(name):
        kind = g.choice(name + '.t', ('int', 'none', 'missing'))
        if kind == 'int':
            return g.int(name)
        if kind == 'none':
            return None
        return marsh.MISSING
    return make


def anyleaf(g, strmax=3):
    """Every kind of terminal, and empty structures."""
    def make(name):
        kind = g.choice(name + '.t', ('int', 'none', 'bool', 'str', 'float', 'missing', 'map', 'seq'))
        if kind == 'int':
            return g.int(name)
        if kind == 'bool':
            return g.bool(name)
        if kind == 'str':
            return g.str(name, strmax, alphabet='ascii')
        if kind == 'float':
            return g.float(name)
        return {'none': None, 'missing': marsh.MISSING, 'map': {}, 'seq': ()}[kind]
    return make


def leaf_str(g):
    def make(name):
        return g.str(name, 3)
    return make


def leaf_mixed(g):
    def make(name):
        kind = g.choice(name + '.t', ('int', 'str'))
        return g.int(name) if kind == 'int' else g.str(name, 3)
    return make


def missing(x):
    if x is dataclasses.MISSING:
        return True
    if isinstance(x, str):
        return x == '???'
    return False


def is_map(x):
    return isinstance(x, dict)


def is_seq(x):
    return isinstance(x, (list, tuple))


def norm(x):
    """Sequences as tuples."""
    if isinstance(x, dict):
        return dict([(k, norm(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return tuple([norm(v) for v in x])
    return x


class Bad(Exception):
    """The reference semantics refuses the operation."""


def index(field, n):
    try:
        i = int(field)
    except ValueError:
        raise Bad('not an index')
    if i < 0:
        i = i + n
    if i < 0 or i > n:
        raise Bad('out of range')
    return i


def find(m, key):
    """(present, value) by comparing keys one at a time."""
    for k in m:
        if k == key:
            return True, m[k]
    return False, None


def get(e, fields):
    """Value at fields; Bad when there is none."""
    for f in fields:
        if is_map(e):
            ok, e = find(e, f)
            if not ok:
                raise Bad('no such key')
        elif is_seq(e):
            i = index(f, len(e))
            if i == len(e):
                raise Bad('out of range')
            e = e[i]
        else:
            raise Bad('terminal')
    return e


def put(e, fields, v, combine=False):
    """e with v at fields (documented behaviour of override)."""
    if not fields:
        if combine and is_map(e) and is_map(v):
            out = [(k, x) for k, x in e.items() if not find(v, k)[0]]
            return dict(out + list(v.items()))
        if combine and is_seq(e) and is_seq(v):
            return tuple(e) + tuple(v)
        return v
    f = fields[0]
    if missing(e):
        e = {}
    if is_map(e):
        out, done = [], False
        for k, x in e.items():
            if not done and k == f:
                out.append((k, put(x, fields[1:], v, combine)))
                done = True
            else:
                out.append((k, x))
        if not done:
            out.append((f, put({}, fields[1:], v, combine)))
        return dict(out)
    if is_seq(e):
        i = index(f, len(e))
        items = list(e)
        if i == len(items):
            items.append({})
        items[i] = put(items[i], fields[1:], v, combine)
        return tuple(items)
    raise Bad('terminal')


def drop(e, fields):
    f = fields[0]
    if is_map(e):
        if not find(e, f)[0]:
            raise Bad('no such key')
        out = []
        for k, x in e.items():
            if k == f:
                if len(fields) > 1:
                    out.append((k, drop(x, fields[1:])))
            else:
                out.append((k, x))
        return dict(out)
    if is_seq(e):
        i = index(f, len(e))
        if i == len(e):
            raise Bad('out of range')
        items = list(e)
        if len(fields) == 1:
            del items[i]
        else:
            items[i] = drop(items[i], fields[1:])
        return tuple(items)
    raise Bad('terminal')


def merged(a, b, concatenate=False):
    if is_map(a) and is_map(b):
        out = []
        for k, x in a.items():
            ok, y = find(b, k)
            out.append((k, merged(x, y, concatenate) if ok else x))
        for k, y in b.items():
            if not find(a, k)[0]:
                out.append((k, y))
        return dict(out)
    if concatenate and is_seq(a) and is_seq(b):
        return tuple(a) + tuple(b)
    if missing(b):
        return a
    return b


def any_missing(e):
    if missing(e):
        return True
    if is_map(e):
        for k, v in e.items():
            if any_missing(k) or any_missing(v):
                return True
        return False
    if is_seq(e):
        for v in e:
            if any_missing(v):
                return True
    return False
