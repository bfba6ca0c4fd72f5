"""Concrete implementation of the harness interface: replays recorded draws."""
from .base import BaseG


class Assume(BaseException):
    pass


class G(BaseG):
    symbolic = False

    def __init__(self, record):
        self.record = record
        self._names = {}
        self.failed = []
        self.known = []
        self.checks = []
        self.covers = set()
        self.observations = []
        self.missing = []

    def _get(self, name, default):
        if name not in self.record:
            self.missing.append(name)
            return default
        return self.record[name][1]

    def int(self, name, lo=None, hi=None):
        v = int(self._get(self._name(name), lo or 0))
        self.assume((lo is None or v >= lo) and (hi is None or v <= hi))
        return v

    def bool(self, name):
        return bool(self._get(self._name(name), False))

    def float(self, name, lo=None, hi=None):
        return float(self._get(self._name(name), 0.0))

    def str(self, name, max, min=0, alphabet='uni'):
        return ''.join(map(chr, self._get(self._name(name), [97] * min)))

    def bytes(self, name, max, min=0):
        name = self._name(name)
        self.choice(name + '.len', tuple(range(min, max + 1)))
        return bytes(self._get(name, [0] * min))

    def choice(self, name, options):
        name = self._name(name)
        options = tuple(options)
        if len(options) == 1:
            return options[0]
        return options[self._get(name, 0)]

    def assume(self, cond):
        if not cond:
            raise Assume()

    def And(self, *xs):
        return all(xs)

    def Or(self, *xs):
        return any(xs)

    def Not(self, x):
        return not x

    def Implies(self, a, b):
        return bool(b) if a else True

    def same(self, a, b):
        if a is b:
            return True
        if type(a) is not type(b):
            return False
        if type(a) is dict:
            if len(a) != len(b):
                return False
            kb = {k: k for k in b}
            return all(k in b and self.same(k, kb[k]) and self.same(a[k], b[k]) for k in a)
        if isinstance(a, (list, tuple)):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, (set, frozenset)):
            return len(a) == len(b) and all(any(self.same(x, y) for y in b) for x in a)
        if type(a) is float:
            return a == b or (a != a and b != b)
        return bool(a == b)

    def check(self, cond, label, known=None):
        self.checks.append(label)
        if cond:
            return
        for kf, pred in (known or {}).items():
            if pred() if callable(pred) else pred:
                self.known.append((kf, label))
                return
        self.failed.append(label)

    def fail(self, label, known=None):
        self.check(False, label, known)

    def cover(self, label):
        self.covers.add(label)

    def observe(self, name, value):
        self.observations.append((name, value))

    def concretise(self, x, m=None, depth=8):
        t = type(x)
        if t is dict:
            return '{' + ', '.join(sorted(
                self.concretise(k) + ': ' + self.concretise(v) for k, v in x.items())) + '}'
        if t is list or t is tuple:
            b = '[]' if t is list else '()'
            return b[0] + ', '.join(self.concretise(v) for v in x) + b[1]
        if isinstance(x, type):
            return x.__name__
        if t in (str, int, float, bool, bytes, type(None)):
            return repr(x)
        return t.__name__
