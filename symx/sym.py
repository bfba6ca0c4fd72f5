"""Symbolic implementation of the harness interface."""
import math
from fractions import Fraction

from . import engine as E
from . import terms as T
from . import hooks as H
from .base import BaseG
from .values import (
    PAD, SYMSET, SymBool, SymBytes, SymFloat, SymInt, SymStr, code_node, frac_to_float, mkbool,
    mkbytes, node_of_bool, num_node,
)

I = T.intc
MAX_CANDIDATES = 3
ALPHABETS = {'uni': (0, 0x10FFFF), 'latin': (0, 255), 'ascii': (0, 127), 'print': (32, 126)}


class G(BaseG):
    symbolic = True

    def __init__(self, ctx):
        self.ctx = ctx
        self._names = {}

    # ---- draws
    def int(self, name, lo=None, hi=None):
        name = self._name(name)
        n = self.ctx.new_var(name, 'I', lo, hi)
        self.ctx.draws[name] = ('int', n)
        return SymInt(n)

    def bool(self, name):
        name = self._name(name)
        n = self.ctx.new_var(name, 'B')
        self.ctx.draws[name] = ('bool', n)
        return SymBool(n)

    def float(self, name, lo=None, hi=None):
        name = self._name(name)
        n = self.ctx.new_var(name, 'R')
        b = 2 ** 1000
        lo = -b if lo is None else lo
        hi = b if hi is None else hi
        self.ctx.add_pc(T.le(T.realc(lo), n))
        self.ctx.add_pc(T.le(n, T.realc(hi)))
        self.ctx.draws[name] = ('float', n)
        self.ctx.real_vars.append(n)
        return SymFloat(n)

    def str(self, name, max, min=0, alphabet='uni'):
        name = self._name(name)
        ctx = self.ctx
        chars = None
        if alphabet in ALPHABETS:
            lo, hi = ALPHABETS[alphabet]
        else:
            chars = sorted(set(map(ord, alphabet)))
            lo, hi = chars[0], chars[-1]
        nodes = []
        for i in range(max):
            v = ctx.new_var(f'{name}[{i}]', 'I', lo if i < min else PAD, hi)
            nodes.append(v)
            inside = []
            if chars is not None:
                inside.append(T.or_(*[T.eq(v, I(c)) for c in chars]))
            elif lo > 0:
                if i >= min:
                    inside.append(T.le(I(lo), v))
            elif hi > 0xD7FF:
                inside.append(T.or_(T.lt(v, I(0xD800)), T.lt(I(0xDFFF), v)))
            f = T.and_(*inside)
            if i >= min and f is not T.TRUE:
                f = T.or_(T.eq(v, I(PAD)), f)
            ctx.add_pc(f)
            if i > min or (i == min and i > 0 and False):
                ctx.add_pc(T.implies(T.eq(nodes[i - 1], I(PAD)), T.eq(v, I(PAD))))
        s = SymStr.padded(nodes) if min < max else SymStr(tuple(nodes))
        ctx.draws[name] = ('str', tuple(nodes))
        return s

    def bytes(self, name, max, min=0):
        name = self._name(name)
        n = self.choice(name + '.len', tuple(range(min, max + 1)))
        nodes = tuple(self.ctx.new_var(f'{name}[{i}]', 'I', 0, 255) for i in range(n))
        self.ctx.draws[name] = ('bytes', nodes)
        return mkbytes(nodes)

    def choice(self, name, options):
        name = self._name(name)
        options = tuple(options)
        if len(options) == 1:
            return options[0]
        n = self.ctx.new_var(name, 'I', 0, len(options) - 1)
        self.ctx.draws[name] = ('index', n)
        return options[self.ctx.choose(n, 0, len(options) - 1)]

    # ---- logic
    def assume(self, cond):
        self.ctx.assume(node_of_bool(cond))

    def And(self, *xs):
        return mkbool(T.and_(*[node_of_bool(x) for x in xs]))

    def Or(self, *xs):
        return mkbool(T.or_(*[node_of_bool(x) for x in xs]))

    def Not(self, x):
        return mkbool(T.not_(node_of_bool(x)))

    def Implies(self, a, b):
        return mkbool(T.implies(node_of_bool(a), node_of_bool(b)))

    def same(self, a, b):
        """Type-exact structural equality without forking on leaves."""
        return mkbool(self._same(a, b))

    def _same(self, a, b):
        if a is b:
            return T.TRUE
        ta, tb = H.h_type(a), H.h_type(b)
        if ta is not tb:
            return T.FALSE
        sa, sb = type(a) in SYMSET, type(b) in SYMSET
        if ta is dict:
            if len(a) != len(b):
                return T.FALSE
            parts = []
            rest = list(b)
            for k in a:
                for j, k2 in enumerate(rest):
                    if bool(k == k2):
                        del rest[j]
                        parts.append(self._same(k, k2))
                        parts.append(self._same(dict.__getitem__(a, k), dict.__getitem__(b, k2)))
                        break
                else:
                    return T.FALSE
            return T.and_(*parts)
        if isinstance(a, (list, tuple)) and not sa:
            if len(a) != len(b):
                return T.FALSE
            return T.and_(*[self._same(x, y) for x, y in zip(a, b)])
        if isinstance(a, (set, frozenset)):
            if len(a) != len(b):
                return T.FALSE
            return T.boolc(all(any(bool(mkbool(self._same(x, y))) for y in b) for x in a))
        if ta is float and not sa and not sb:
            return T.boolc(a == b or (a != a and b != b))
        r = a == b
        if r is NotImplemented:
            r = False
        return node_of_bool(r)

    # ---- verdicts
    def check(self, cond, label, known=None):
        ctx = self.ctx
        ctx.checks.append(label)
        n = node_of_bool(cond)
        p = ctx.peval(n)
        if p is True:
            ctx.discharged += 1
            return
        nn = T.not_(n)
        for kf, pred in (known or {}).items():
            k = node_of_bool(pred() if callable(pred) else pred)
            ctx.assert_queries += 1
            r, m = ctx.solver.check(ctx.pc, nn, k)
            if r == 'sat':
                ctx.known_hits.append((kf, label, self.extract(m)))
            nn = T.and_(nn, T.not_(k))
            n = T.or_(n, k)
        ctx.assert_queries += 1
        r, m = ctx.solver.check(ctx.pc, nn)
        if r == 'unsat':
            ctx.discharged += 1
            ctx.learn(n, True)
            return
        if r == 'unknown':
            ctx.incomplete.add('unknown verdict: ' + label)
            ctx.add_pc(n)
            ctx.model = None
            return
        self.candidate(label, nn, m)
        # go on with the part of the path on which the assertion holds
        ctx.add_pc(n)
        ctx.model = None
        ctx._model()

    def fail(self, label, known=None):
        self.check(False, label, known)

    def candidate(self, label, extra, model):
        ctx = self.ctx
        ctx.candidates.append((label, self.extract(self.refine(model, extra))))

    def refine(self, model, *extra):
        """Prefer a model whose reals are short dyadics (exactly representable)."""
        ctx = self.ctx
        if not ctx.real_vars:
            return model
        for k in (1, 8, 1024):
            cs = [T.is_int(T.mul(T.realc(k), v)) for v in ctx.real_vars]
            cs += [T.and_(T.le(T.realc(-2 ** 40), v), T.le(v, T.realc(2 ** 40)))
                   for v in ctx.real_vars]
            r, m = ctx.solver.check(ctx.pc, *[e for e in extra if e is not None], *cs)
            if r == 'sat':
                return m
        return model

    def extract(self, m):
        out = {}
        for name, (kind, n) in self.ctx.draws.items():
            if kind == 'str':
                s = []
                for x in n:
                    c = T.evaluate(x, m)
                    if c == PAD:
                        break
                    s.append(c)
                out[name] = ['str', s]
            elif kind == 'bytes':
                out[name] = ['bytes', [T.evaluate(x, m) for x in n]]
            elif kind == 'float':
                v = Fraction(T.evaluate(n, m))
                f = frac_to_float(v)
                out[name] = ['float', repr(f if f is not None else math.inf)]
            elif kind == 'int':
                out[name] = ['int', str(T.evaluate(n, m))]
            else:
                out[name] = [kind, T.evaluate(n, m)]
        return out

    def cover(self, label):
        self.ctx.covers.add(label)

    def observe(self, name, value):
        self.ctx.observations.append((name, value))

    def concretise(self, x, m, depth=8):
        """Value of x under model m, as a comparable string; raises KeyError if lazy."""
        t = type(x)
        if t is SymStr:
            if x._t is not None:
                return '?'
            s = []
            for c in (x._p if x._c is None else x._c):
                v = c if type(c) is int else T.evaluate(c, m)
                if v == PAD:
                    break
                s.append(chr(v))
            return repr(''.join(s))
        if t is SymInt:
            return repr(int(T.evaluate(x._n, m)))
        if t is SymBool:
            return repr(bool(T.evaluate(x._n, m)))
        if t is SymFloat:
            f = frac_to_float(Fraction(T.evaluate(x._n, m)))
            return repr(f)
        if t is SymBytes:
            return repr(bytes(c if type(c) is int else T.evaluate(c, m) for c in x._c))
        if t is dict:
            return '{' + ', '.join(sorted(
                self.concretise(k, m) + ': ' + self.concretise(v, m) for k, v in x.items())) + '}'
        if t is list or t is tuple:
            b = '[]' if t is list else '()'
            return b[0] + ', '.join(self.concretise(v, m) for v in x) + b[1]
        if isinstance(x, type):
            return x.__name__
        if t in (str, int, float, bool, bytes, type(None)):
            return repr(x)
        return t.__name__
