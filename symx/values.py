"""Symbolic stand-ins for str, int, float, bool and bytes values.

They are not subclasses of the real types: C code that insists on the exact
type fails loudly (and is then handled in hooks.py) instead of silently using a
wrong concrete value.  `__class__` reports the real type, so isinstance works.
"""
from fractions import Fraction
import math

from . import engine as E
from . import terms as T
from . import chartab

PAD = -1
I = T.intc


# --------------------------------------------------------------------------- helpers
def mkbool(n):
    """Python bool when the node is decided, else SymBool."""
    if n.op == 'const':
        return n.args[0]
    r = E.CTX.peval(n)
    if r is not None:
        return r
    return SymBool(n)


def mkint(n):
    v = E.CTX.value_of(n)
    if v is not None:
        return int(v)
    return SymInt(n)


def mkreal(n):
    v = E.CTX.value_of(n)
    if v is not None:
        f = frac_to_float(v)
        if f is not None and Fraction(f) == v:
            return f
    return SymFloat(n)


def frac_to_float(v):
    try:
        return v.numerator / v.denominator
    except OverflowError:
        return None


def node_of_bool(x):
    if type(x) is SymBool:
        return x._n
    return T.boolc(bool(x))


def num_node(x):
    """Numeric node of an int/bool/float-like value, or None."""
    t = type(x)
    if t is SymInt or t is SymFloat:
        return x._n
    if t is SymBool:
        return T.ite(x._n, I(1), I(0))
    if isinstance(x, int):
        return I(int(x))
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            return None
        return T.realc(Fraction(float(x)))
    return None


# --------------------------------------------------------------------------- bool
class SymBool:
    __slots__ = ('_n',)

    def __init__(self, n):
        self._n = n

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return E.CTX.decide(self._n)

    def __hash__(self):
        return 0x51

    def __eq__(self, o):
        if type(o) is SymBool or isinstance(o, bool):
            return mkbool(T.iff(self._n, node_of_bool(o)))
        return num_eq(self, o)

    def __ne__(self, o):
        return negate(self.__eq__(o))

    def __and__(self, o):
        if isinstance(o, bool):
            return mkbool(T.and_(self._n, node_of_bool(o)))
        return mkint(num_node(self)) & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, bool):
            return mkbool(T.or_(self._n, node_of_bool(o)))
        return mkint(num_node(self)) | o

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, bool):
            return mkbool(T.not_(T.iff(self._n, node_of_bool(o))))
        return mkint(num_node(self)) ^ o

    __rxor__ = __xor__

    def _as_int(self):
        return mkint(num_node(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __repr__(self):
        return repr(bool(self))

    __str__ = __repr__

    def __format__(self, spec):
        return format(bool(self), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __getattr__(self, name):
        if not hasattr(False, name):
            raise AttributeError(f"'bool' object has no attribute '{name}'")
        return getattr(mkint(num_node(self)), name)


def _bool_operators():
    import operator

    def binary(name, op):
        def forward(self, o):
            return op(self._as_int(), o)

        def backward(self, o):
            return op(o, self._as_int())
        setattr(SymBool, f'__{name}__', forward)
        setattr(SymBool, f'__r{name}__', backward)

    def order(name, op):
        setattr(SymBool, f'__{name}__', lambda self, o: op(self._as_int(), o))

    def unary(name, op):
        setattr(SymBool, f'__{name}__', lambda self: op(self._as_int()))
    for name in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'lshift', 'rshift'):
        binary(name, getattr(operator, name))
    binary('divmod', divmod)
    for name in ('lt', 'le', 'gt', 'ge'):
        order(name, getattr(operator, name))
    for name in ('neg', 'pos', 'invert'):
        unary(name, getattr(operator, name))
    unary('abs', abs)


_bool_operators()


def negate(r):
    if r is NotImplemented:
        return r
    if type(r) is SymBool:
        return mkbool(T.not_(r._n))
    return not r


def num_eq(a, b):
    x, y = num_node(a), num_node(b)
    if x is None or y is None:
        if isinstance(b, float) and x is not None:
            return False
        return NotImplemented
    return mkbool(T.eq(x, y))


def num_cmp(a, b, f, inf):
    x, y = num_node(a), num_node(b)
    if y is None:
        if isinstance(b, float):       # inf / nan
            if math.isnan(b):
                return False
            return inf(b)
        return NotImplemented
    return mkbool(f(x, y))


class _Num:
    __slots__ = ()

    def __eq__(self, o):
        return num_eq(self, o)

    def __ne__(self, o):
        return negate(num_eq(self, o))

    def __lt__(self, o):
        return num_cmp(self, o, T.lt, lambda b: b > 0)

    def __le__(self, o):
        return num_cmp(self, o, T.le, lambda b: b > 0)

    def __gt__(self, o):
        return num_cmp(self, o, lambda a, b: T.lt(b, a), lambda b: b < 0)

    def __ge__(self, o):
        return num_cmp(self, o, lambda a, b: T.le(b, a), lambda b: b < 0)

    def __hash__(self):
        return 0x52

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def _arith(self, o, f):
        y = num_node(o)
        if y is None:
            if isinstance(o, float):
                return f(float(self), o) if False else NotImplemented
            return NotImplemented
        r = f(self._n, y)
        return mkint(r) if r.sort == 'I' else mkreal(r)

    def __add__(self, o):
        return self._arith(o, T.add)

    __radd__ = __add__

    def __sub__(self, o):
        return self._arith(o, T.sub)

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: T.sub(b, a))

    def __mul__(self, o):
        if isinstance(o, (list, tuple)):
            return o * self.__index__()
        if isinstance(o, (str, bytes)):
            return o * self.__index__()
        return self._arith(o, T.mul)

    __rmul__ = __mul__

    def __neg__(self):
        r = T.neg(self._n)
        return mkint(r) if r.sort == 'I' else mkreal(r)

    def __pos__(self):
        return self

    def __abs__(self):
        z = I(0) if self._n.sort == 'I' else T.realc(0)
        r = T.ite(T.le(z, self._n), self._n, T.neg(self._n))
        return mkint(r) if r.sort == 'I' else mkreal(r)


class SymInt(_Num):
    __slots__ = ('_n',)

    def __init__(self, n):
        self._n = n

    @property
    def __class__(self):
        return int

    def __hash__(self):
        return 0x52

    def __bool__(self):
        return E.CTX.decide(T.not_(T.eq(self._n, I(0))))

    def __index__(self):
        return int(E.CTX.realize(self._n, (0, 1, -1, 2)))

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __round__(self, n=None):
        return self if n is None else round(self.__index__(), n)

    def __truediv__(self, o):
        if isinstance(o, (int, float)) and num_node(o) is not None and num_node(o).op == 'const' \
                and num_node(o).args[0] != 0:
            return mkreal(T.mul(T.realc(1 / Fraction(num_node(o).args[0])), T.to_real(self._n)))
        return self.__index__() / o

    def __rtruediv__(self, o):
        return o / self.__index__()

    def __floordiv__(self, o):
        if type(o) is int and o != 0:
            return mkint(T.idiv(self._n, I(o)))
        return self.__index__() // o

    def __rfloordiv__(self, o):
        return o // self.__index__()

    def __mod__(self, o):
        if type(o) is int and o > 0:
            return mkint(T.mod(self._n, I(o)))
        return self.__index__() % o

    def __rmod__(self, o):
        return o % self.__index__()

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, m=None):
        if type(o) is int and o == 2:
            return mkint(T.mul(self._n, self._n))
        return pow(self.__index__(), o, m)

    def __rpow__(self, o):
        return o ** self.__index__()

    def __lshift__(self, o):
        return self * (1 << int(o))

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, o):
        return self // (1 << int(o))

    def __rrshift__(self, o):
        return o >> self.__index__()

    def __and__(self, o):
        if type(o) is int and o > 0 and o & (o + 1) == 0:
            return self % (o + 1)
        return self.__index__() & int(o)

    __rand__ = __and__

    def __or__(self, o):
        return self.__index__() | int(o)

    __ror__ = __or__

    def __xor__(self, o):
        return self.__index__() ^ int(o)

    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    def __repr__(self):
        return repr(self.__index__())

    __str__ = __repr__

    def __format__(self, spec):
        return format(self.__index__(), spec)

    def is_integer(self):
        return True

    def conjugate(self):
        return self

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def as_integer_ratio(self):
        return self, 1

    def __getattr__(self, name):
        if name.startswith('_sx') or not hasattr(0, name):
            raise AttributeError(f"'int' object has no attribute '{name}'")
        return getattr(self.__index__(), name)


class SymFloat(_Num):
    """A finite float, over-approximated by a real number."""
    __slots__ = ('_n',)

    def __init__(self, n):
        self._n = n

    @property
    def __class__(self):
        return float

    def __hash__(self):
        return 0x52

    def __bool__(self):
        return E.CTX.decide(T.not_(T.eq(self._n, T.realc(0))))

    def is_integer(self):
        return mkbool(T.is_int(self._n))

    def __trunc__(self):
        n = self._n
        ctx = E.CTX
        if ctx.peval(T.is_int(n)) is True and n.op != 'const':
            k = ctx.int_of.get(n.id)
            if k is None:
                k = ctx.fresh('I')
                if ctx.model is not None:
                    try:
                        ctx.model[k] = int(T.evaluate(n, ctx.model))
                    except KeyError:
                        ctx.model = None
                ctx.add_pc(T.eq(T.to_real(k), n))
                ctx.int_of[n.id] = k
            return mkint(k)
        fl = T.to_int(n)
        ce = T.neg(T.to_int(T.neg(n)))
        return mkint(T.ite(T.le(T.realc(0), n), fl, ce))

    def __floor__(self):
        return mkint(T.to_int(self._n))

    def __ceil__(self):
        return mkint(T.neg(T.to_int(T.neg(self._n))))

    def __int__(self):
        r = self.__trunc__()
        return r if type(r) is int else r.__index__()

    def __float__(self):
        v = E.CTX.realize(self._n)
        f = frac_to_float(Fraction(v))
        if f is None:
            raise E.PathEnd('unsupported', 'float overflow')
        return f

    def __round__(self, n=None):
        return round(float(self), n)

    def __truediv__(self, o):
        y = num_node(o)
        if y is not None and y.op == 'const' and y.args[0] != 0:
            return mkreal(T.mul(T.realc(1 / Fraction(y.args[0])), self._n))
        return float(self) / o

    def __rtruediv__(self, o):
        return o / float(self)

    def __floordiv__(self, o):
        return float(self) // o

    def __mod__(self, o):
        return float(self) % o

    def __pow__(self, o):
        return float(self) ** o

    def __repr__(self):
        return repr(float(self))

    __str__ = __repr__

    def __format__(self, spec):
        return format(float(self), spec)

    def __getattr__(self, name):
        if name.startswith('_sx') or not hasattr(0.0, name):
            raise AttributeError(f"'float' object has no attribute '{name}'")
        return getattr(float(self), name)


# --------------------------------------------------------------------------- str
def code_node(c):
    return I(c) if type(c) is int else c


def norm_code(c):
    """int when the code is known on this path."""
    if type(c) is int:
        return c
    v = E.CTX.value_of(c)
    return c if v is None else int(v)


def mkstr(codes):
    """str when every code is concrete, else a fixed-length SymStr."""
    for c in codes:
        if type(c) is not int:
            break
    else:
        return ''.join(map(chr, codes))
    return SymStr(tuple(codes))


def lift(s):
    """SymStr view of a str or SymStr."""
    if type(s) is SymStr:
        return s
    return SymStr(tuple(map(ord, str.__str__(s))))


def codes_of(s):
    """Tuple of codes with the length fixed (forks on the length if needed)."""
    if type(s) is SymStr:
        return s._fix()
    return tuple(map(ord, str.__str__(s)))


def is_str(x):
    return type(x) is SymStr or isinstance(x, str)


def lazy(thunk):
    s = SymStr(None)
    s._t = thunk
    return s


def concat(parts):
    """Concatenation of str/SymStr parts; nothing is forced when lengths are open."""
    parts = [p for p in parts if not (type(p) is str and p == '')]
    if not parts:
        return ''
    if all(type(p) is str for p in parts):
        return ''.join(parts)
    if len(parts) == 1:
        return parts[0]
    if all(type(p) is str or (p._c is not None and p._p is None) for p in parts):
        out = []
        for p in parts:
            out.extend(codes_of(p))
        return mkstr(out)
    frozen = tuple(parts)

    def force():
        out = []
        for p in frozen:
            out.extend(codes_of(p))
        return out
    return lazy(force)


def _char_pred(name):
    def pred(c):
        c = code_node(c)
        return T.in_ranges(c, chartab.ranges(name, T.bounds(c)[1]))
    return pred


is_space = _char_pred('isspace')
is_decimal = _char_pred('isdecimal')


def num_space(c):
    """Whitespace around numbers: unlike str.strip, int() and float() keep 0x1c-0x1f."""
    c = code_node(c)
    return T.and_(is_space(c), T.not_(_in_ranges(c, ((28, 31),))))


def _in_ranges(x, ranges):
    return T.or_(*[T.eq(x, I(a)) if a == b else T.and_(T.le(I(a), x), T.le(x, I(b)))
                   for a, b in ranges])


class SymStr:
    # _c: tuple of codes (int or Node) once the length is fixed
    # _p: tuple of padded code nodes while the length is open
    # _t: thunk producing codes or a string
    __slots__ = ('_c', '_p', '_t')

    def __init__(self, codes):
        self._c = codes
        self._p = None
        self._t = None

    @classmethod
    def padded(cls, nodes):
        s = cls(None)
        s._p = tuple(nodes)
        return s

    @property
    def __class__(self):
        return str

    # ---- shape
    def _force(self):
        if self._t is not None:
            t = self._t
            r = t()
            if type(r) is SymStr:
                r._force()
                self._c, self._p = r._c, r._p
            elif isinstance(r, str):
                self._c = tuple(map(ord, r))
            else:
                self._c = tuple(r)
            self._t = None

    def _fix(self):
        self._force()
        if self._c is None:
            ctx = E.CTX
            out = []
            for n in self._p:
                if ctx.decide(T.eq(n, I(PAD)), prefer=False):
                    break
                out.append(norm_code(n))
            self._c = tuple(out)
            self._p = None
        else:
            c = self._c
            for i, x in enumerate(c):
                if type(x) is not int:
                    self._c = c = tuple(map(norm_code, c))
                    break
        return self._c

    def _pads(self, width):
        """Codes as nodes, padded to width (width >= length)."""
        self._force()
        src = self._p if self._c is None else self._c
        out = [code_node(x) for x in src]
        while len(out) < width:
            out.append(I(PAD))
        return out

    def _width(self):
        self._force()
        return len(self._p if self._c is None else self._c)

    def _open(self):
        self._force()
        return self._c is None

    # ---- comparison
    def _eq_node(self, o):
        self._force()
        if type(o) is not SymStr:
            s = str.__str__(o)
            p = self._p if self._c is None else self._c
            if len(s) > len(p) or (self._c is not None and len(s) != len(p)):
                return T.FALSE
            return T.and_(*[T.eq(code_node(a), b) for a, b in
                            zip(p, [I(ord(ch)) for ch in s] + [I(PAD)] * (len(p) - len(s)))])
        o._force()
        if self._c is not None and o._c is not None and len(self._c) != len(o._c):
            return T.FALSE
        w = max(self._width(), o._width())
        return T.and_(*[T.eq(a, b) for a, b in zip(self._pads(w), o._pads(w))])

    def __eq__(self, o):
        if type(o) is SymStr or isinstance(o, str):
            if o is self:
                return True
            return mkbool(self._eq_node(o))
        return NotImplemented

    def __ne__(self, o):
        return negate(self.__eq__(o))

    def _lt_node(self, o, strict):
        w = max(self._width(), lift(o)._width())
        a, b = self._pads(w), lift(o)._pads(w)
        r = T.boolc(not strict)
        for x, y in zip(reversed(a), reversed(b)):
            r = T.or_(T.lt(x, y), T.and_(T.eq(x, y), r))
        return r

    def __lt__(self, o):
        return mkbool(self._lt_node(o, True)) if is_str(o) else NotImplemented

    def __le__(self, o):
        return mkbool(self._lt_node(o, False)) if is_str(o) else NotImplemented

    def __gt__(self, o):
        return mkbool(lift(o)._lt_node(self, True)) if is_str(o) else NotImplemented

    def __ge__(self, o):
        return mkbool(lift(o)._lt_node(self, False)) if is_str(o) else NotImplemented

    def __hash__(self):
        return 0x53

    def __bool__(self):
        self._force()
        if self._c is not None:
            return bool(self._c)
        if not self._p:
            return False
        return E.CTX.decide(T.not_(T.eq(self._p[0], I(PAD))))

    def __len__(self):
        return len(self._fix())

    def __iter__(self):
        for c in self._fix():
            yield mkstr((norm_code(c),))

    def __getitem__(self, i):
        c = self._fix()
        if isinstance(i, slice):
            return mkstr(c[i])
        if not isinstance(i, int):
            raise TypeError(f'string indices must be integers, not {type(i).__name__!r}')
        if type(i) is SymInt:
            n = len(c)
            if not bool(i >= -n) or not bool(i < n):
                raise IndexError('string index out of range')
            i = E.CTX.choose(i._n, -n, n - 1)
        return mkstr((norm_code(c[i]),))

    def _realize(self):
        c = self._fix()
        out = []
        for x in c:
            out.append(int(E.CTX.realize(code_node(x), _NICE)))
        self._c = tuple(out)
        return ''.join(map(chr, out))

    def __str__(self):
        return self._realize()

    def __repr__(self):
        return repr(self._realize())

    def __format__(self, spec):
        return format(self._realize(), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # ---- algebra
    def __add__(self, o):
        if not is_str(o):
            return NotImplemented
        return concat((self, o))

    def __radd__(self, o):
        if not is_str(o):
            return NotImplemented
        return concat((o, self))

    def __mul__(self, k):
        return mkstr(self._fix() * int(k))

    __rmul__ = __mul__

    def __mod__(self, args):
        from . import hooks
        return lazy(lambda: self._realize() % hooks.deep_realize(args))

    def _find_node(self, sub, i):
        c, s = self._fix(), codes_of(sub)
        return T.and_(*[T.eq(code_node(c[i + k]), code_node(s[k])) for k in range(len(s))])

    def __contains__(self, sub):
        if not is_str(sub):
            raise TypeError(
                "'in <string>' requires string as left operand, not " + type(sub).__name__)
        return bool(self._contains(sub))

    def _contains(self, sub):
        n, m = len(self._fix()), len(codes_of(sub))
        return mkbool(T.or_(*[self._find_node(sub, i) for i in range(n - m + 1)]))

    def find(self, sub, start=0, end=None):
        n, m = len(self._fix()), len(codes_of(sub))
        start, end, _ = slice(start, end).indices(n)
        for i in range(start, end - m + 1):
            if E.CTX.decide(self._find_node(sub, i)):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        n, m = len(self._fix()), len(codes_of(sub))
        start, end, _ = slice(start, end).indices(n)
        for i in range(end - m, start - 1, -1):
            if E.CTX.decide(self._find_node(sub, i)):
                return i
        return -1

    def index(self, *a):
        r = self.find(*a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, *a):
        r = self.rfind(*a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub, *a):
        n, m = len(self._fix()), len(codes_of(sub))
        if m == 0:
            return n + 1
        if a:
            return self[slice(*a)].count(sub)
        i = k = 0
        while i + m <= n:
            if E.CTX.decide(self._find_node(sub, i)):
                k += 1
                i += m
            else:
                i += 1
        return k

    def _starts(self, sub):
        if self._open() and type(sub) is str:
            p = self._p
            if len(sub) > len(p):
                return False
            return mkbool(T.and_(*[T.eq(a, I(ord(b))) for a, b in zip(p, sub)]))
        n, m = len(self._fix()), len(codes_of(sub))
        if m > n:
            return False
        return mkbool(self._find_node(sub, 0))

    def _ends(self, sub):
        n, m = len(self._fix()), len(codes_of(sub))
        if m > n:
            return False
        return mkbool(self._find_node(sub, n - m))

    def startswith(self, sub, *a):
        s = self[slice(*a, *([None] * (2 - len(a))))] if a else self
        if isinstance(sub, tuple):
            return any(lift(s)._starts(x) for x in sub)
        if not is_str(sub):
            raise TypeError('startswith first arg must be str or a tuple of str, not '
                            + type(sub).__name__)
        return lift(s)._starts(sub)

    def endswith(self, sub, *a):
        s = self[slice(*a, *([None] * (2 - len(a))))] if a else self
        if isinstance(sub, tuple):
            return any(lift(s)._ends(x) for x in sub)
        if not is_str(sub):
            raise TypeError('endswith first arg must be str or a tuple of str, not '
                            + type(sub).__name__)
        return lift(s)._ends(sub)

    def removeprefix(self, p):
        return self[len(codes_of(p)):] if self.startswith(p) else self

    def removesuffix(self, p):
        k = len(codes_of(p))
        return self[:len(self) - k] if k and self.endswith(p) else self

    def _stripset(self, chars):
        if chars is None:
            return is_space
        cs = codes_of(chars)
        return lambda c: T.or_(*[T.eq(code_node(c), code_node(k)) for k in cs])

    def lstrip(self, chars=None):
        c = self._fix()
        p = self._stripset(chars)
        i = 0
        while i < len(c) and E.CTX.decide(p(c[i])):
            i += 1
        return mkstr(c[i:])

    def rstrip(self, chars=None):
        c = self._fix()
        p = self._stripset(chars)
        i = len(c)
        while i > 0 and E.CTX.decide(p(c[i - 1])):
            i -= 1
        return mkstr(c[:i])

    def strip(self, chars=None):
        return lift(self.lstrip(chars)).rstrip(chars)

    def split(self, sep=None, maxsplit=-1):
        c = self._fix()
        out = []
        if sep is None:
            cur = []
            for k, x in enumerate(c):
                if E.CTX.decide(is_space(x)):
                    if cur:
                        out.append(mkstr(cur))
                        cur = []
                else:
                    if not cur and 0 <= maxsplit <= len(out):
                        out.append(lift(mkstr(c[k:])).rstrip())
                        return out
                    cur.append(norm_code(x))
            if cur:
                out.append(mkstr(cur))
            return out
        m = len(codes_of(sep))
        if m == 0:
            raise ValueError('empty separator')
        i = last = 0
        while i + m <= len(c):
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if E.CTX.decide(self._find_node(sep, i)):
                out.append(mkstr(c[last:i]))
                i += m
                last = i
            else:
                i += 1
        out.append(mkstr(tuple(map(norm_code, c[last:]))))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            raise E.PathEnd('unsupported', 'rsplit')
        c = self._fix()
        m = len(codes_of(sep))
        out = []
        end = i = len(c)
        while i - m >= 0 and len(out) < maxsplit:
            if E.CTX.decide(self._find_node(sep, i - m)):
                out.append(mkstr(c[i:end]))
                i -= m
                end = i
            else:
                i -= 1
        out.append(mkstr(c[:end]))
        return out[::-1]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, '', ''
        return self[:i], sep, self[i + len(codes_of(sep)):]

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return '', '', self
        return self[:i], sep, self[i + len(codes_of(sep)):]

    def splitlines(self, keepends=False):
        return self._realize().splitlines(keepends)

    def join(self, items):
        items = list(items)
        for k, x in enumerate(items):
            if not is_str(x):
                raise TypeError(
                    f'sequence item {k}: expected str instance, {type(x).__name__} found')
        parts = []
        for k, x in enumerate(items):
            if k:
                parts.append(self)
            parts.append(x)
        return concat(parts)

    def replace(self, old, new, count=-1):
        c = self._fix()
        o, n = codes_of(old), codes_of(new)
        out = []
        i = k = 0
        if not o:
            for x in c:
                if count < 0 or k < count:
                    out.extend(n)
                    k += 1
                out.append(x)
            if count < 0 or k < count:
                out.extend(n)
            return mkstr(out)
        while i < len(c):
            if i + len(o) <= len(c) and (count < 0 or k < count) \
                    and E.CTX.decide(self._find_node(old, i)):
                out.extend(n)
                i += len(o)
                k += 1
            else:
                out.append(norm_code(c[i]))
                i += 1
        return mkstr(out)

    def translate(self, table):
        out = []
        items = None
        if isinstance(table, dict):
            items = list(table.items())
        else:
            return self._realize().translate(table)
        for x in self._fix():
            for k, v in items:
                if E.CTX.decide(T.eq(code_node(x), I(k))):
                    if v is None:
                        break
                    out.extend([v] if isinstance(v, int) else codes_of(v))
                    break
            else:
                out.append(norm_code(x))
        return mkstr(out)

    def _case(self, method):
        out = []
        for x in self._fix():
            if type(x) is int:
                out.extend(map(ord, getattr(chr(x), method)()))
                continue
            lo, hi = T.bounds(x)
            if lo is None or hi is None:
                lo, hi = 0, 0x10FFFF
            runs, multi = chartab.case_map(method, max(lo, 0), min(hi, 0x3FF))
            ctx = E.CTX
            if hi > 0x3FF and ctx.decide(T.lt(I(0x3FF), x)):
                runs, multi = chartab.case_map(method, 0x400, hi)
                if multi and ctx.decide(_in_ranges(x, [(m, m) for m in multi])):
                    out.extend(map(ord, getattr(chr(ctx.realize(x)), method)()))
                    continue
                n = x
                if ctx.decide(_in_ranges(x, [r[:2] for r in runs])):
                    for a, b, d in runs:
                        n = T.ite(T.and_(T.le(I(a), x), T.le(x, I(b))), T.add(x, I(d)), n)
                out.append(n)
                continue
            done = False
            for mc in multi + (0x3A3,):
                if mc <= hi and ctx.decide(T.eq(x, I(mc)), prefer=False):
                    out.extend(map(ord, getattr(chr(mc), method)()))
                    done = True
                    break
            if done:
                continue
            n = x
            for a, b, d in runs:
                n = T.ite(T.and_(T.le(I(a), x), T.le(x, I(b))), T.add(x, I(d)), n)
            out.append(n)
        return mkstr(out)

    def lower(self):
        return self._case('lower')

    def upper(self):
        return self._case('upper')

    def casefold(self):
        return self._case('casefold')

    def _all(self, name):
        c = self._fix()
        if not c:
            return False
        p = _char_pred(name)
        return mkbool(T.and_(*[p(x) for x in c]))

    def isspace(self):
        return self._all('isspace')

    def isdigit(self):
        return self._all('isdigit')

    def isdecimal(self):
        return self._all('isdecimal')

    def isnumeric(self):
        return self._all('isnumeric')

    def isalpha(self):
        return self._all('isalpha')

    def isalnum(self):
        return self._all('isalnum')

    def isprintable(self):
        return self._all('isprintable') if self._fix() else True

    def isascii(self):
        return mkbool(T.and_(*[T.lt(code_node(x), I(128)) for x in self._fix()]))

    def encode(self, encoding='utf-8', errors='strict'):
        enc = str(encoding).lower().replace('_', '-')
        if enc in ('utf-8', 'utf8', 'ascii', 'latin-1', 'iso-8859-1'):
            lim = 256 if enc in ('latin-1', 'iso-8859-1') else 128
            c = self._fix()
            if E.CTX.decide(T.and_(*[T.lt(code_node(x), I(lim)) for x in c])):
                return mkbytes(c)
            if enc.startswith('utf'):
                out = []
                for x in c:
                    if type(x) is int:
                        out.extend(chr(x).encode('utf-8', errors))
                    elif E.CTX.decide(T.lt(x, I(128))):
                        out.append(x)
                    elif E.CTX.decide(T.lt(x, I(0x800))):
                        out += [T.add(I(0xC0), T.idiv(x, I(64))),
                                T.add(I(0x80), T.mod(x, I(64)))]
                    elif E.CTX.decide(T.lt(x, I(0x10000))):
                        out += [T.add(I(0xE0), T.idiv(x, I(4096))),
                                T.add(I(0x80), T.mod(T.idiv(x, I(64)), I(64))),
                                T.add(I(0x80), T.mod(x, I(64)))]
                    else:
                        out += [T.add(I(0xF0), T.idiv(x, I(262144))),
                                T.add(I(0x80), T.mod(T.idiv(x, I(4096)), I(64))),
                                T.add(I(0x80), T.mod(T.idiv(x, I(64)), I(64))),
                                T.add(I(0x80), T.mod(x, I(64)))]
                return mkbytes(out)
        return self._realize().encode(encoding, errors)

    def __getattr__(self, name):
        if name.startswith('_sx') or not hasattr('', name):
            raise AttributeError(f"'str' object has no attribute '{name}'")
        return getattr(self._realize(), name)


_NICE = tuple(map(ord, 'a1.x'))


# --------------------------------------------------------------------------- bytes
def mkbytes(codes):
    codes = [norm_code(c) for c in codes]
    if all(type(c) is int for c in codes):
        return bytes(codes)
    return SymBytes(tuple(codes))


def bcodes(b):
    return b._c if type(b) is SymBytes else tuple(b)


def is_bytes(b):
    return type(b) is SymBytes or isinstance(b, (bytes, bytearray))


class SymBytes:
    __slots__ = ('_c',)

    def __init__(self, codes):
        self._c = codes

    @property
    def __class__(self):
        return bytes

    def __len__(self):
        return len(self._c)

    def __bool__(self):
        return bool(self._c)

    def __hash__(self):
        return 0x54

    def __eq__(self, o):
        if not is_bytes(o):
            return NotImplemented
        oc = bcodes(o)
        if len(oc) != len(self._c):
            return False
        return mkbool(T.and_(*[T.eq(code_node(a), code_node(b)) for a, b in zip(self._c, oc)]))

    def __ne__(self, o):
        return negate(self.__eq__(o))

    def __iter__(self):
        for c in self._c:
            c = norm_code(c)
            yield c if type(c) is int else SymInt(c)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkbytes(self._c[i])
        c = norm_code(self._c[i])
        return c if type(c) is int else SymInt(c)

    def __add__(self, o):
        return mkbytes(self._c + bcodes(o)) if is_bytes(o) else NotImplemented

    def __radd__(self, o):
        return mkbytes(bcodes(o) + self._c) if is_bytes(o) else NotImplemented

    def __mul__(self, k):
        return mkbytes(self._c * int(k))

    def decode(self, encoding='utf-8', errors='strict'):
        enc = str(encoding).lower().replace('_', '-')
        if enc in ('utf-8', 'utf8', 'ascii', 'latin-1', 'iso-8859-1'):
            if enc in ('latin-1', 'iso-8859-1'):
                return mkstr(self._c)
            if E.CTX.decide(T.and_(*[T.lt(code_node(x), I(128)) for x in self._c])):
                return mkstr(self._c)
        return self._realize().decode(encoding, errors)

    def translate(self, table, delete=b''):
        if delete or not isinstance(table, bytes):
            return self._realize().translate(table, delete)
        out = []
        for x in self._c:
            if type(x) is int:
                out.append(table[x])
                continue
            n = x
            for k, v in enumerate(table):
                if k != v:
                    n = T.ite(T.eq(x, I(k)), I(v), n)
            out.append(n)
        return mkbytes(out)

    def replace(self, a, b):
        if len(a) == len(b) == 1:
            t = bytearray(range(256))
            t[a[0]] = b[0]
            return self.translate(bytes(t))
        return self._realize().replace(a, b)

    def rstrip(self, chars=None):
        if chars is None:
            return self._realize().rstrip()
        c = list(self._c)
        while c and E.CTX.decide(T.or_(*[T.eq(code_node(c[-1]), I(k)) for k in chars])):
            c.pop()
        return mkbytes(c)

    def _realize(self):
        self._c = tuple(int(E.CTX.realize(code_node(x), (65, 0))) for x in self._c)
        return bytes(self._c)

    def __bytes__(self):
        return self._realize()

    def __repr__(self):
        return repr(self._realize())

    __str__ = __repr__

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __getattr__(self, name):
        if name.startswith('_sx') or not hasattr(b'', name):
            raise AttributeError(f"'bytes' object has no attribute '{name}'")
        return getattr(self._realize(), name)


class SymComplex:
    """A complex number of symbolic parts."""
    __slots__ = ('real', 'imag')

    def __init__(self, real, imag):
        self.real, self.imag = real, imag

    @property
    def __class__(self):
        return complex

    def __eq__(self, o):
        if type(o) is SymComplex or isinstance(o, complex):
            re, im = o.real, o.imag
        elif num_node(o) is not None or isinstance(o, float):
            re, im = o, 0.0
        else:
            return NotImplemented
        a, b = self.real == re, self.imag == im
        return mkbool(T.and_(node_of_bool(a), node_of_bool(b)))

    def __ne__(self, o):
        return negate(self.__eq__(o))

    def __hash__(self):
        return 0x52

    def __bool__(self):
        return bool(self != 0)

    def __complex__(self):
        return complex(realize(self.real), realize(self.imag))

    def __getattr__(self, name):
        if name.startswith('_sx') or not hasattr(0j, name):
            raise AttributeError(f"'complex' object has no attribute '{name}'")
        return getattr(complex(self), name)

    def __repr__(self):
        return repr(complex(self))


SYM = (SymStr, SymInt, SymFloat, SymBool, SymBytes)
SYMSET = frozenset(SYM)
PROTO = {SymStr: '', SymInt: 0, SymFloat: 0.0, SymBool: False, SymBytes: b''}
REALTYPE = {SymStr: str, SymInt: int, SymFloat: float, SymBool: bool, SymBytes: bytes, SymComplex: complex}


def realize(x):
    t = type(x)
    if t is SymStr or t is SymBytes:
        return x._realize()
    if t is SymInt:
        return x.__index__()
    if t is SymFloat:
        return float(x)
    if t is SymBool:
        return bool(x)
    return x


# --------------------------------------------------------------------------- conversions
def digit_value(c):
    """Digit value of a decimal character node (assumed isdecimal)."""
    if type(c) is int:
        import unicodedata
        return I(unicodedata.decimal(chr(c)))
    lo, hi = T.bounds(c)
    rs = [r for r in chartab.ranges('isdecimal', hi)
          if not ((hi is not None and r[0] > hi) or (lo is not None and r[1] < lo))]
    # prune ranges that can not apply on this path: ASCII first
    if len(rs) > 1:
        if E.CTX.decide(T.le(c, I(57))):
            return T.sub(c, I(48))
        n = I(0)
        for a, b in rs[1:]:
            n = T.ite(T.and_(T.le(I(a), c), T.le(c, I(b))), T.mod(T.sub(c, I(a)), I(10)), n)
        return n
    return T.sub(c, I(48))


def _accept(codes, trans, start, final):
    """Acceptance formula of a DFA; trans: state -> list of (pred, state)."""
    cur = {start: T.TRUE}
    for c in codes:
        nxt = {}
        for st, cond in cur.items():
            for pred, to in trans.get(st, ()):
                g = T.and_(cond, pred(c))
                if g is not T.FALSE:
                    nxt[to] = T.or_(nxt[to], g) if to in nxt else g
        cur = nxt
    return T.or_(*[cond for st, cond in cur.items() if st in final])


def _is(chars):
    ks = [I(ord(ch)) for ch in chars]
    return lambda c: T.or_(*[T.eq(code_node(c), k) for k in ks])


_SIGN = _is('+-')
_US = _is('_')
_DOT = _is('.')
_EXP = _is('eE')

_INT_DFA = {
    'ws': [(num_space, 'ws'), (_SIGN, 'sign'), (is_decimal, 'd')],
    'sign': [(is_decimal, 'd')],
    'd': [(is_decimal, 'd'), (_US, 'us'), (num_space, 'end')],
    'us': [(is_decimal, 'd')],
    'end': [(num_space, 'end')],
}
_FLOAT_DFA = {
    'ws': [(num_space, 'ws'), (_SIGN, 'sign'), (is_decimal, 'i'), (_DOT, 'dot0')],
    'sign': [(is_decimal, 'i'), (_DOT, 'dot0')],
    'i': [(is_decimal, 'i'), (_US, 'ius'), (_DOT, 'dot'), (_EXP, 'e'), (num_space, 'end')],
    'ius': [(is_decimal, 'i')],
    'dot0': [(is_decimal, 'f')],
    'dot': [(is_decimal, 'f'), (_EXP, 'e'), (num_space, 'end')],
    'f': [(is_decimal, 'f'), (_US, 'fus'), (_EXP, 'e'), (num_space, 'end')],
    'fus': [(is_decimal, 'f')],
    'e': [(_SIGN, 'es'), (is_decimal, 'x')],
    'es': [(is_decimal, 'x')],
    'x': [(is_decimal, 'x'), (_US, 'xus'), (num_space, 'end')],
    'xus': [(is_decimal, 'x')],
    'end': [(num_space, 'end')],
}


def parse_int(s, base=10):
    if base != 10:
        return int(realize(s), base)
    codes = s._fix()
    ctx = E.CTX
    if not ctx.decide(_accept(codes, _INT_DFA, 'ws', ('d', 'end')), prefer=False):
        raise ValueError('invalid literal for int() with base 10')
    val = I(0)
    negf = T.FALSE
    for c in codes:
        c = norm_code(c)
        n = code_node(c)
        if ctx.decide(is_decimal(n)):
            val = T.add(T.mul(I(10), val), digit_value(c))
        elif ctx.decide(T.or_(num_space(n), _US(n))):
            pass
        else:
            negf = T.eq(n, I(45))
    return mkint(T.ite(negf, T.neg(val), val))


_SPECIALS = [('inf', math.inf), ('infinity', math.inf), ('nan', math.nan)]


def round_double(v, mag=None, grid=None):
    """Node of the double nearest to the exact value v (a node).

    Exact for integers up to 2**53; otherwise a fresh real within the relative
    rounding error that is an even integer when the magnitude exceeds 2**53.
    mag bounds |v|; v is known to be a multiple of 1/grid.
    """
    c = E.CTX.value_of(v)
    if c is not None:
        f = frac_to_float(Fraction(c))
        if f is None:
            return None
        return T.realc(Fraction(f))
    ctx = E.CTX
    r = T.to_real(v)
    lim = T.realc(2 ** 53)
    small = mag is not None and mag <= 2 ** 53
    exact = T.is_int(v) if small else T.and_(T.is_int(v), T.le(T.neg(lim), r), T.le(r, lim))
    if ctx.decide(exact):
        return r
    x = ctx.rounded.get(v)
    if x is not None:
        return x
    ctx.relaxed = True
    x = ctx.rounded[v] = ctx.fresh('R', hint='dbl')
    u = Fraction(1, 2 ** 53)
    if small:
        err = u * mag
        tol = T.realc(err + Fraction(1, 2 ** 1074))
        if grid is not None and err * grid < 1:
            # too coarse a grid to be rounded onto an integer
            ctx.add_pc(T.not_(T.is_int(x)))
            ctx.add_pc(T.eq(T.to_int(x), T.to_int(r)))
    else:
        if ctx.decide(T.or_(T.lt(lim, r), T.lt(r, T.neg(lim)))):
            k = ctx.fresh('I', hint='dblk')
            ctx.add_pc(T.eq(x, T.mul(T.realc(2), T.to_real(k))))
            ctx.learn(T.is_int(x), True)
        absr = T.ite(T.le(T.realc(0), r), r, T.neg(r))
        tol = T.add(T.mul(T.realc(u), absr), T.realc(Fraction(1, 2 ** 1074)))
    ctx.add_pc(T.le(T.sub(x, r), tol))
    ctx.add_pc(T.le(T.sub(r, x), tol))
    return x


def parse_float(s):
    codes = s._fix()
    ctx = E.CTX
    # inf / nan spellings
    opts = []
    low = None
    if any(type(c) is not int or chr(c) in 'iInN' for c in codes):
        for word, val in _SPECIALS:
            for sg in ('', '+', '-'):
                w = sg + word
                if len(w) == len(codes):
                    f = T.and_(*[T.or_(T.eq(code_node(c), I(ord(ch))),
                                       T.eq(code_node(c), I(ord(ch.upper()))))
                                 for c, ch in zip(codes, w)])
                    opts.append((f, -val if sg == '-' else val))
        if len(codes) > 3:
            # specials with surrounding whitespace
            seps = T.or_(*[_in_ranges(code_node(c), ((28, 31),)) for c in codes])
            if ctx.decide(seps, prefer=False):
                raise ValueError('could not convert string to float')
            st = s.strip()
            if type(st) is str:
                return float(st)
            if len(st._fix()) != len(codes):
                return parse_float(st)
    for f, val in opts:
        if ctx.decide(f, prefer=False):
            return val
    if not ctx.decide(_accept(codes, _FLOAT_DFA, 'ws', ('i', 'dot', 'f', 'x', 'end')),
                      prefer=False):
        raise ValueError('could not convert string to float')
    mode = 'i'
    val = I(0)
    scale = digits = 0
    negf = T.FALSE
    exp = 0
    eneg = False
    for c in codes:
        c = norm_code(c)
        n = code_node(c)
        if ctx.decide(is_decimal(n)):
            if mode == 'x':
                d = ctx.choose(digit_value(c), 0, 9)
                exp = exp * 10 + int(d)
            else:
                val = T.add(T.mul(I(10), val), digit_value(c))
                digits += 1
                if mode == 'f':
                    scale += 1
        elif ctx.decide(T.or_(num_space(n), _US(n))):
            pass
        elif ctx.decide(_DOT(n)):
            mode = 'f'
        elif ctx.decide(_EXP(n)):
            mode = 'x'
        elif mode == 'x':
            eneg = ctx.decide(T.eq(n, I(45)))
        else:
            negf = T.eq(n, I(45))
    e = (-exp if eneg else exp) - scale
    v = T.ite(negf, T.neg(val), val)
    if e > 400:
        if ctx.decide(T.eq(val, I(0))):
            return 0.0
        return -math.inf if ctx.decide(negf) else math.inf
    if e < -800:
        return 0.0
    if e:
        v = T.mul(T.realc(Fraction(10) ** e), T.to_real(v))
    if e + len(codes) > 308:
        cv = ctx.realize(v)
        f = frac_to_float(Fraction(cv))
        return f if f is not None else math.inf * (1 if cv > 0 else -1)
    r = round_double(v, Fraction(10) ** (digits + e), Fraction(10) ** max(0, -e))
    return mkreal(T.to_real(r))


def int_to_float(x):
    """float(int) for a symbolic int."""
    ctx = E.CTX
    lim = 2 ** 1024 - 2 ** 970 - 1
    if not ctx.decide(T.and_(T.le(I(-lim), x._n), T.le(x._n, I(lim)))):
        raise OverflowError('int too large to convert to float')
    return mkreal(round_double(T.to_real(x._n)))


def int_to_str(x):
    """Decimal representation of a symbolic int, as a lazy string."""
    n = x._n

    def force():
        ctx = E.CTX
        out = []
        m = n
        if ctx.decide(T.lt(n, I(0)), prefer=False):
            out.append(45)
            m = T.neg(n)
        k = 1
        while not ctx.decide(T.lt(m, I(10 ** k))):
            k += 1
            if k > 40:
                raise E.PathEnd('unsupported', 'long int to str')
        digits = []
        tot = I(0)
        for i in range(k):
            d = ctx.fresh('I', 48, 57, hint='dig')
            digits.append(d)
            tot = T.add(T.mul(I(10), tot), T.sub(d, I(48)))
        ctx.add_pc(T.eq(m, tot))
        ctx.model = None
        return out + digits
    return lazy(force)
