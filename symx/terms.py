"""Hash-consed first-order terms over Bool/Int/Real, translated to z3 on demand.

The engine builds path conditions and assertions as these terms.  They are only
handed to z3 when a query is needed, so that re-executing an already explored
prefix costs no solver time.  Nothing here decides anything: folding is limited
to constants and declared variable domains.
"""
import zlib
from fractions import Fraction
import z3

_TABLE = {}
_COUNT = [0]


class Node:
    __slots__ = ('op', 'args', 'sort', 'id', '_z', '_vars', '_neg', 'sig')

    def __init__(self, op, args, sort):
        self.op = op
        self.args = args
        self.sort = sort
        self._z = None
        self._vars = None
        self._neg = None
        _COUNT[0] += 1
        self.id = _COUNT[0]
        # structural, the same in every process and on every path
        self.sig = zlib.crc32((op + ','.join(
            str(a.sig) if type(a) is Node else repr(a) for a in args)).encode())

    def __repr__(self):
        return show(self)

    def __reduce__(self):
        raise TypeError('terms do not travel between processes')


def _mk(op, args, sort):
    key = (op, sort) + tuple(a.id if type(a) is Node else ('c', type(a), a) for a in args)
    n = _TABLE.get(key)
    if n is None:
        n = _TABLE[key] = Node(op, args, sort)
    return n


def show(n):
    if n.op == 'var':
        return n.args[0]
    if n.op == 'const':
        return repr(n.args[0])
    return '(' + n.op + ' ' + ' '.join(map(repr, n.args)) + ')'


TRUE = _mk('const', (True,), 'B')
FALSE = _mk('const', (False,), 'B')


def boolc(b):
    return TRUE if b else FALSE


_INTC = {}


def intc(i):
    n = _INTC.get(i)
    if n is None:
        n = _mk('const', (int(i),), 'I')
        _INTC[i] = n
    return n


def realc(x):
    return _mk('const', (Fraction(x),), 'R')


_DOM = {}      # name -> (lo, hi) or None


def var(name, sort, lo=None, hi=None):
    n = _mk('var', (name, lo, hi), sort)
    if lo is not None or hi is not None:
        _DOM[n.id] = (lo, hi)
    return n


def domain_constraints(v):
    lo, hi = _DOM.get(v.id, (None, None))
    out = []
    if lo is not None:
        out.append(_mk('le', (intc(lo), v), 'B'))
    if hi is not None:
        out.append(_mk('le', (v, intc(hi)), 'B'))
    return out


def bounds(n):
    """Interval of an Int node, (None, None) when unknown."""
    op = n.op
    if op == 'const':
        return n.args[0], n.args[0]
    if op == 'var':
        return _DOM.get(n.id, (None, None))
    if op == 'ite':
        a, b = bounds(n.args[1]), bounds(n.args[2])
        lo = None if a[0] is None or b[0] is None else min(a[0], b[0])
        hi = None if a[1] is None or b[1] is None else max(a[1], b[1])
        return lo, hi
    if op == 'add' and n.sort == 'I':
        lo = hi = 0
        for x in n.args:
            b = bounds(x)
            lo = None if lo is None or b[0] is None else lo + b[0]
            hi = None if hi is None or b[1] is None else hi + b[1]
        return lo, hi
    if op == 'mul' and n.sort == 'I' and n.args[0].op == 'const':
        k = n.args[0].args[0]
        b = bounds(n.args[1])
        if b[0] is None or b[1] is None:
            return None, None
        return min(k * b[0], k * b[1]), max(k * b[0], k * b[1])
    if op == 'mod' and n.args[1].op == 'const' and n.args[1].args[0] > 0:
        return 0, n.args[1].args[0] - 1
    return None, None


def is_const(n):
    return n.op == 'const'


def not_(a):
    if a._neg is not None:
        return a._neg
    if a is TRUE:
        r = FALSE
    elif a is FALSE:
        r = TRUE
    elif a.op == 'not':
        r = a.args[0]
    else:
        r = _mk('not', (a,), 'B')
    a._neg = r
    r._neg = a
    return r


def and_(*xs):
    out = []
    seen = set()
    for x in xs:
        for y in (x.args if x.op == 'and' else (x,)):
            if y is FALSE:
                return FALSE
            if y is TRUE or y.id in seen:
                continue
            if not_(y).id in seen:
                return FALSE
            seen.add(y.id)
            out.append(y)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _mk('and', tuple(out), 'B')


def or_(*xs):
    out = []
    seen = set()
    for x in xs:
        for y in (x.args if x.op == 'or' else (x,)):
            if y is TRUE:
                return TRUE
            if y is FALSE or y.id in seen:
                continue
            if not_(y).id in seen:
                return TRUE
            seen.add(y.id)
            out.append(y)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return _mk('or', tuple(out), 'B')


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    if a is b:
        return TRUE
    if a.op == 'const':
        return b if a.args[0] else not_(b)
    if b.op == 'const':
        return a if b.args[0] else not_(a)
    if (a.sig, a.id) > (b.sig, b.id):
        a, b = b, a
    return _mk('iff', (a, b), 'B')


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == 'B':
        return and_(implies(c, a), implies(not_(c), b))
    return _mk('ite', (c, a, b), a.sort)


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort == 'B':
        return iff(a, b)
    if a.sort != b.sort:
        a, b = to_real(a), to_real(b)
        if a is b:
            return TRUE
    if a.op == 'const' and b.op == 'const':
        return boolc(a.args[0] == b.args[0])
    if a.op == 'const':
        a, b = b, a
    if a.sort == 'I':
        la, ha = bounds(a)
        lb, hb = bounds(b)
        if (la is not None and hb is not None and la > hb) or \
                (ha is not None and lb is not None and ha < lb):
            return FALSE
        if b.op == 'const':
            if a.op == 'ite':
                x, y = a.args[1], a.args[2]
                if x.op == 'const' or y.op == 'const':
                    return ite(a.args[0], eq(x, b), eq(y, b))
            elif a.op == 'add' and a.args[0].op == 'const':
                rest = a.args[1:]
                rest = rest[0] if len(rest) == 1 else _mk('add', rest, 'I')
                return eq(rest, intc(b.args[0] - a.args[0].args[0]))
    if b.op != 'const' and (a.sig, a.id) > (b.sig, b.id):
        a, b = b, a
    return _mk('eq', (a, b), 'B')


def le(a, b):
    if a is b:
        return TRUE
    if a.sort != b.sort:
        a, b = to_real(a), to_real(b)
    if a.op == 'const' and b.op == 'const':
        return boolc(a.args[0] <= b.args[0])
    if a.sort == 'I':
        la, ha = bounds(a)
        lb, hb = bounds(b)
        if ha is not None and lb is not None and ha <= lb:
            return TRUE
        if la is not None and hb is not None and la > hb:
            return FALSE
    return _mk('le', (a, b), 'B')


def lt(a, b):
    return not_(le(b, a))


def add(*xs):
    if any(x.sort == 'R' for x in xs):
        xs = [to_real(x) for x in xs]
        sort = 'R'
        k = Fraction(0)
    else:
        sort = 'I'
        k = 0
    out = []
    for x in xs:
        for y in (x.args if x.op == 'add' else (x,)):
            if y.op == 'const':
                k += y.args[0]
            else:
                out.append(y)
    if not out:
        return intc(k) if sort == 'I' else realc(k)
    if k != 0:
        out.insert(0, intc(k) if sort == 'I' else realc(k))
    if len(out) == 1:
        return out[0]
    return _mk('add', tuple(out), sort)


def mul(a, b):
    if a.sort != b.sort:
        a, b = to_real(a), to_real(b)
    if a.op == 'const' and b.op == 'const':
        v = a.args[0] * b.args[0]
        return intc(v) if a.sort == 'I' else realc(v)
    if b.op == 'const':
        a, b = b, a
    if a.op == 'const':
        if a.args[0] == 0:
            return a
        if a.args[0] == 1:
            return b
        if b.op == 'mul' and b.args[0].op == 'const':
            return mul(mul(a, b.args[0]), b.args[1])
        if b.op == 'add':
            return add(*[mul(a, x) for x in b.args])
    return _mk('mul', (a, b), a.sort)


def neg(a):
    return mul(intc(-1) if a.sort == 'I' else realc(-1), a)


def sub(a, b):
    return add(a, neg(b))


def idiv(a, b):
    """Floor division; b must be a non-zero constant."""
    k = b.args[0]
    if a.op == 'const':
        return intc(a.args[0] // k)
    if k == 1:
        return a
    return _mk('idiv', (a, b), 'I')


def mod(a, b):
    """Python modulo; b must be a positive constant."""
    if a.op == 'const':
        return intc(a.args[0] % b.args[0])
    lo, hi = bounds(a)
    if lo is not None and hi is not None and 0 <= lo and hi < b.args[0]:
        return a
    return _mk('mod', (a, b), 'I')


def to_real(a):
    if a.sort == 'R':
        return a
    if a.op == 'const':
        return realc(a.args[0])
    return _mk('toreal', (a,), 'R')


def to_int(a):
    """Floor of a real."""
    if a.sort == 'I':
        return a
    if a.op == 'const':
        return intc(a.args[0].numerator // a.args[0].denominator)
    if a.op == 'toreal':
        return a.args[0]
    return _mk('toint', (a,), 'I')


def is_int(a):
    if a.sort == 'I':
        return TRUE
    if a.op == 'const':
        return boolc(a.args[0].denominator == 1)
    if a.op == 'toreal':
        return TRUE
    return _mk('isint', (a,), 'B')


def in_ranges(c, ranges):
    """c is an Int node; ranges a sorted sequence of inclusive (lo, hi)."""
    if c.op == 'const':
        v = c.args[0]
        return boolc(any(lo <= v <= hi for lo, hi in ranges))
    blo, bhi = bounds(c)
    parts = []
    for lo, hi in ranges:
        if (bhi is not None and lo > bhi) or (blo is not None and hi < blo):
            continue
        if lo == hi:
            parts.append(eq(c, intc(lo)))
        else:
            parts.append(and_(le(intc(lo), c), le(c, intc(hi))))
    return or_(*parts)


def variables(n):
    v = n._vars
    if v is None:
        if n.op == 'var':
            v = frozenset((n,))
        elif n.op == 'const':
            v = frozenset()
        else:
            v = frozenset().union(*[variables(a) for a in n.args])
        n._vars = v
    return v


def evaluate(n, env, memo=None):
    """Evaluate under env: dict var node -> python value (total on n's variables)."""
    op = n.op
    if op == 'const':
        return n.args[0]
    if op == 'var':
        return env[n]
    if memo is None:
        memo = {}
    r = memo.get(n.id)
    if r is not None:
        return r
    a = n.args
    if op == 'not':
        r = not evaluate(a[0], env, memo)
    elif op == 'and':
        r = all(evaluate(x, env, memo) for x in a)
    elif op == 'or':
        r = any(evaluate(x, env, memo) for x in a)
    elif op in ('eq', 'iff'):
        r = evaluate(a[0], env, memo) == evaluate(a[1], env, memo)
    elif op == 'le':
        r = evaluate(a[0], env, memo) <= evaluate(a[1], env, memo)
    elif op == 'ite':
        r = evaluate(a[1] if evaluate(a[0], env, memo) else a[2], env, memo)
    elif op == 'add':
        r = 0
        for x in a:
            r += evaluate(x, env, memo)
    elif op == 'mul':
        r = evaluate(a[0], env, memo) * evaluate(a[1], env, memo)
    elif op == 'idiv':
        r = evaluate(a[0], env, memo) // a[1].args[0]
    elif op == 'mod':
        r = evaluate(a[0], env, memo) % a[1].args[0]
    elif op == 'toreal':
        r = Fraction(evaluate(a[0], env, memo))
    elif op == 'toint':
        x = evaluate(a[0], env, memo)
        r = x.numerator // x.denominator
    elif op == 'isint':
        r = evaluate(a[0], env, memo).denominator == 1
    else:
        raise AssertionError(op)
    memo[n.id] = r
    return r


def to_z3(n):
    z = n._z
    if z is not None:
        return z
    op, a = n.op, n.args
    if op == 'const':
        v = a[0]
        if n.sort == 'B':
            z = z3.BoolVal(v)
        elif n.sort == 'I':
            z = z3.IntVal(v)
        else:
            z = z3.Q(v.numerator, v.denominator)
    elif op == 'var':
        z = {'B': z3.Bool, 'I': z3.Int, 'R': z3.Real}[n.sort](a[0])
    else:
        x = [to_z3(y) for y in a]
        if op == 'not':
            z = z3.Not(x[0])
        elif op == 'and':
            z = z3.And(*x)
        elif op == 'or':
            z = z3.Or(*x)
        elif op in ('eq', 'iff'):
            z = x[0] == x[1]
        elif op == 'le':
            z = x[0] <= x[1]
        elif op == 'ite':
            z = z3.If(x[0], x[1], x[2])
        elif op == 'add':
            z = z3.Sum(*x)
        elif op == 'mul':
            z = x[0] * x[1]
        elif op == 'idiv':
            # z3 div rounds so that the remainder is non-negative: floor for k > 0
            if a[1].args[0] > 0:
                z = x[0] / x[1]
            else:
                z = (-x[0]) / z3.IntVal(-a[1].args[0])
        elif op == 'mod':
            z = x[0] % x[1]
        elif op == 'toreal':
            z = z3.ToReal(x[0])
        elif op == 'toint':
            z = z3.ToInt(x[0])
        elif op == 'isint':
            z = z3.IsInt(x[0])
        else:
            raise AssertionError(op)
    n._z = z
    return z
