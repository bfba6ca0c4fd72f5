"""Harness interface shared by the symbolic run and the concrete replay.

This module and concrete.py import neither z3 nor the engine: the concrete side
runs under the interpreter marsh is installed in, on the unmodified sources.
"""
import json

EXACT_DIFFLIB = False       # set by a harness: difflib itself is run on symbolic strings

class Harness:
    """One bounded question: `fn(g, **params)` executed for all draws."""

    def __init__(self, fn, quick=None, thorough=None, name=None, weight=1.0):
        self.fn = fn
        # parameters travel with replays as JSON: the same form everywhere
        self.quick = json.loads(json.dumps(quick or {}))
        self.thorough = json.loads(json.dumps(thorough if thorough is not None else self.quick))
        self.name = name or fn.__name__
        self.weight = weight

    def params(self, tier):
        return self.thorough if tier == 'thorough' else self.quick


class BaseG:
    """Derived generators and helpers; primitives come from the subclasses."""

    def _name(self, name):
        k = self._names.get(name, 0)
        self._names[name] = k + 1
        return name if k == 0 else f'{name}#{k}'

    # -- elements ------------------------------------------------------------
    def terminal(self, name, kinds=('none', 'bool', 'int', 'float', 'str'), strmax=3,
                 alphabet='ascii'):
        kind = self.choice(name + '.kind', kinds)
        if kind == 'none':
            return None
        if kind == 'bool':
            return self.bool(name)
        if kind == 'int':
            return self.int(name)
        if kind == 'float':
            return self.float(name)
        if kind == 'str':
            return self.str(name, strmax, alphabet=alphabet)
        raise AssertionError(kind)

    def tree(self, name, depth, width=2, keymax=2, leaf=None, kinds=('leaf', 'map', 'seq'),
             minkey=1, key_alphabet='uni', seqtype=None):
        """Nested element: mapping keys symbolic and pairwise distinct, leaves from `leaf`."""
        if leaf is None:
            leaf = self.int
        kind = self.choice(name + '.shape', kinds) if depth > 0 and len(kinds) > 1 else (
            'leaf' if depth <= 0 else kinds[0])
        if kind == 'leaf':
            return leaf(name)
        n = self.choice(name + '.len', tuple(range(width + 1)))
        if kind == 'map':
            keys = []
            out = {}
            for i in range(n):
                k = self.str(f'{name}.k{i}', keymax, minkey, alphabet=key_alphabet)
                for other in keys:
                    self.assume(k != other)
                keys.append(k)
            for i, k in enumerate(keys):
                out[k] = self.tree(f'{name}.{i}', depth - 1, width, keymax, leaf, ('leaf', 'map', 'seq'),
                                   minkey, key_alphabet, seqtype)
            return out
        items = [self.tree(f'{name}.{i}', depth - 1, width, keymax, leaf, ('leaf', 'map', 'seq'),
                           minkey, key_alphabet, seqtype) for i in range(n)]
        if seqtype is None:
            return tuple(items) if self.choice(name + '.tuple', (True, False)) else items
        return seqtype(items)


def snapshot(x):
    """Structural copy of nested dict/list/tuple, leaves by reference."""
    if isinstance(x, dict):
        return dict([(k, snapshot(v)) for k, v in x.items()])
    if type(x) is list:
        return [snapshot(v) for v in x]
    if type(x) is tuple:
        return tuple([snapshot(v) for v in x])
    return x
