"""Operations the instrumented code is routed through.

Each hook behaves exactly like the native operation when no symbolic value is
involved.  With symbolic values it applies the symbolic semantics; operations
without one fall back to concretisation (forking over values), which is counted
and reported as incomplete exploration.
"""
import builtins
import collections
import collections.abc
import enum
import functools
import inspect
import operator
import re
import string as _string
import sys
import types

from . import engine as E
from . import terms as T
from .values import (
    SYM, SYMSET, PROTO, REALTYPE, bcodes, is_bytes, mkbytes, SymBool, SymBytes, SymComplex, SymFloat, SymInt, SymStr,
    concat, int_to_float, int_to_str, is_str, lazy, lift, mkbool, mkint, negate,
    node_of_bool, num_node, parse_float, parse_int, realize,
)

MISS = object()


def is_sym(x):
    return type(x) in SYMSET


COMPOUND = {}


def compound(t):
    """Hashable sequence types: tuples, named tuples, lists with a hash."""
    r = COMPOUND.get(t)
    if r is None:
        r = COMPOUND[t] = t is tuple or (t not in SYMSET and t is not list and isinstance(t, type)
                                         and issubclass(t, (tuple, list)) and t.__hash__ is not None)
    return r


def has_sym(xs):
    for x in xs:
        if type(x) in SYMSET:
            return True
        if x is not None and compound(type(x)) and len(x) and has_sym(x):
            return True
    return False


def deep_has_sym(x, depth=6):
    if type(x) in SYMSET:
        return True
    if depth:
        if isinstance(x, (list, tuple, set, frozenset, collections.deque)):
            return any(deep_has_sym(y, depth - 1) for y in x)
        if isinstance(x, dict):
            return any(deep_has_sym(k, depth - 1) or deep_has_sym(v, depth - 1)
                       for k, v in x.items())
        if isinstance(x, BaseException):
            return any(deep_has_sym(y, depth - 1) for y in x.args)
    return False


def deep_realize(x):
    if type(x) in SYMSET:
        return realize(x)
    if not deep_has_sym(x):
        return x
    t = type(x)
    if t in (list, tuple, set, frozenset):
        return t(deep_realize(y) for y in x)
    if isinstance(x, tuple) and hasattr(x, '_fields'):
        return t(*[deep_realize(y) for y in x])
    if t is dict:
        return {deep_realize(k): deep_realize(v) for k, v in x.items()}
    if isinstance(x, dict):
        try:
            return t({deep_realize(k): deep_realize(v) for k, v in x.items()})
        except Exception:
            return {deep_realize(k): deep_realize(v) for k, v in x.items()}
    return x


# --------------------------------------------------------------------------- equality / dicts
def equal(a, b):
    """a is b or a == b as a Python bool (forks)."""
    if a is b:
        return True
    return bool(a == b)


def hash_check(k):
    hash(k)


def dict_find(d, key):
    """The key object of d equal to key, or MISS.  Linear, forks on equality."""
    hash(key)
    if not is_sym(key) and not compound(type(key)):
        # fast: an identical concrete key
        try:
            if dict.__contains__(d, key):
                return key
        except TypeError:
            raise
        if not has_sym(d):
            return MISS
        for k in list(d):
            if type(k) in SYMSET or compound(type(k)):
                if equal(k, key):
                    return k
        return MISS
    for k in list(d):
        if equal(k, key):
            return k
    return MISS


def needs_scan(d, key):
    if type(key) in SYMSET:
        return True
    if compound(type(key)) and has_sym(key):
        return True
    return has_sym(d)


def getitem(a, b):
    ta = type(a)
    if ta is dict or (isinstance(a, dict) and ta.__getitem__ is dict.__getitem__):
        if needs_scan(a, b):
            k = dict_find(a, b)
            if k is MISS:
                if hasattr(ta, '__missing__'):
                    m = ta.__missing__
                    if isinstance(a, collections.defaultdict):
                        if a.default_factory is None:
                            raise KeyError(b)
                        v = a.default_factory()
                        dict.__setitem__(a, b, v)
                        return v
                    return m(a, b)
                raise KeyError(b)
            return dict.__getitem__(a, k)
        return a[b]
    if type(b) is SymInt and (ta is list or ta is tuple):
        n = len(a)
        if not bool(b >= -n) or not bool(b < n):
            raise IndexError(f'{ta.__name__} index out of range')
        return a[int(E.CTX.choose(b._n, -n, n - 1))]
    if ta is types.MappingProxyType and needs_scan(a, b):
        for k in list(a):
            if equal(k, b):
                return a[k]
        raise KeyError(b)
    if isinstance(ta, enum.EnumMeta) is False and isinstance(a, enum.EnumMeta) and is_sym(b):
        if type(b) is not SymStr:
            raise KeyError(b)
        for name in a.__members__:
            if b == name:
                return a.__members__[name]
        raise KeyError(b)
    if ta is str and type(b) is SymInt:
        return lift(a)[b]
    return a[b]


def setitem(v, a, b):
    ta = type(a)
    if isinstance(a, dict) and ta.__setitem__ in (dict.__setitem__,
                                                  collections.OrderedDict.__setitem__) \
            and needs_scan(a, b):
        k = dict_find(a, b)
        if k is MISS:
            k = b
        ta.__setitem__(a, k, v)
        return
    if type(b) is SymInt and ta is list:
        n = len(a)
        if not bool(b >= -n) or not bool(b < n):
            raise IndexError('list assignment index out of range')
        b = int(E.CTX.choose(b._n, -n, n - 1))
    a[b] = v


def delitem(a, b):
    ta = type(a)
    if isinstance(a, dict) and needs_scan(a, b) and ta.__delitem__ in (
            dict.__delitem__, collections.OrderedDict.__delitem__):
        k = dict_find(a, b)
        if k is MISS:
            raise KeyError(b)
        ta.__delitem__(a, k)
        return
    if type(b) is SymInt and ta is list:
        n = len(a)
        if not bool(b >= -n) or not bool(b < n):
            raise IndexError('list assignment index out of range')
        b = int(E.CTX.choose(b._n, -n, n - 1))
    del a[b]


_VIEWS = (type({}.keys()), set, frozenset)


def contains(x, c):
    tc = type(c)
    tx = type(x)
    if tc is dict or tc in _VIEWS or (isinstance(c, dict)
                                      and tc.__contains__ is dict.__contains__):
        if tx in SYMSET or (compound(tx) and has_sym(x)) or has_sym(c):
            hash(x)
            if tx not in SYMSET and not compound(tx) and x in c:
                return True
            for k in list(c):
                if equal(k, x):
                    return True
            return False
        return x in c
    if tc is tuple or tc is list:
        if tx in SYMSET:
            parts = []
            for y in c:
                r = x == y if type(y) not in SYMSET else y == x
                if type(r) is SymBool:
                    parts.append(r._n)
                elif r is NotImplemented:
                    continue
                elif r:
                    return True
            return mkbool(T.or_(*parts))
        return x in c
    if tc is SymStr:
        if not is_str(x):
            raise TypeError("'in <string>' requires string as left operand, not "
                            + REALTYPE.get(tx, tx).__name__)
        return c._contains(x)
    if tx is SymStr and isinstance(c, str):
        c = str.__str__(c)
        subs = {c[i:j] for i in range(len(c) + 1) for j in range(i, len(c) + 1)}
        if len(subs) > 300:
            return lift(c)._contains(x)
        return mkbool(T.or_(*[x._eq_node(s) for s in sorted(subs)]))
    if tx in SYMSET and tc is types.MappingProxyType:
        return any(equal(k, x) for k in c)
    if tx in SYMSET and tc is range:
        if tx is SymInt:
            if len(c) == 0:
                return False
            lo, hi = min(c), max(c)
            r = T.and_(T.le(T.intc(lo), x._n), T.le(x._n, T.intc(hi)))
            if abs(c.step) != 1:
                r = T.and_(r, T.eq(T.mod(T.sub(x._n, T.intc(lo)), T.intc(abs(c.step))), T.intc(0)))
            return mkbool(r)
    return x in c


def op_in(x, c):
    return contains(x, c)


def op_not_in(x, c):
    return negate(contains(x, c))


def op_is(a, b):
    if type(a) is SymBool and (b is True or b is False):
        return mkbool(T.iff(a._n, T.boolc(b)))
    if type(b) is SymBool and (a is True or a is False):
        return mkbool(T.iff(b._n, T.boolc(a)))
    return a is b


def op_is_not(a, b):
    return negate(op_is(a, b))


# --------------------------------------------------------------------------- displays, strings
def dict_display(*pairs):
    """Items are (key, value) tuples or 1-tuples (mapping,) for ** entries."""
    d = {}
    for p in pairs:
        if len(p) == 2:
            setitem(p[1], d, p[0])
        else:
            m = p[0]
            if not hasattr(m, 'keys'):
                raise TypeError(f"'{type(m).__name__}' object is not a mapping")
            for k in m.keys():
                setitem(getitem(m, k), d, k)
    return d


def set_of(xs):
    s = set()
    for x in xs:
        if not contains(x, s):
            s.add(x)
    return s


def to_str(x):
    """str(x) without losing symbolic content."""
    t = type(x)
    if t is SymStr:
        return x
    if t is SymInt:
        return int_to_str(x)
    if t is SymBool:
        return 'True' if x else 'False'
    if t in SYMSET:
        return lazy(lambda: str(realize(x)))
    if t is str:
        return x
    f = t.__str__
    if isinstance(f, types.FunctionType):
        r = f(x)
        if type(r) is SymStr:
            return r
        if not isinstance(r, str):
            raise TypeError(f'__str__ returned non-string (type {type(r).__name__})')
        return r
    if f is object.__str__ and isinstance(t.__repr__, types.FunctionType):
        r = t.__repr__(x)
        return r
    if isinstance(x, KeyError) and f is KeyError.__str__ and len(x.args) == 1:
        return to_repr(x.args[0])
    if isinstance(x, BaseException) and f in (BaseException.__str__, KeyError.__str__):
        if len(x.args) == 1:
            return to_str(x.args[0])
        if deep_has_sym(x.args):
            return lazy(lambda: str(deep_realize(x.args)))
        return str(x)
    if t is list or t is tuple or t is dict:
        return to_repr(x)
    if deep_has_sym(x):
        return lazy(lambda: str(deep_realize(x)))
    return str(x)


def to_repr(x):
    t = type(x)
    if t in SYMSET:
        if t is SymInt:
            return int_to_str(x)
        return lazy(lambda: repr(realize(x)))
    f = t.__repr__
    if isinstance(f, types.FunctionType):
        return f(x)
    if deep_has_sym(x):
        if t is list or t is tuple:
            out = ['[' if t is list else '(']
            for i, v in enumerate(x):
                out += [', ' if i else '', to_repr(v)]
            out.append(']' if t is list else ',)' if len(x) == 1 else ')')
            return concat(out)
        if t is dict:
            out = ['{']
            for i, (k, v) in enumerate(x.items()):
                out += [', ' if i else '', to_repr(k), ': ', to_repr(v)]
            return concat(out + ['}'])
        return lazy(lambda: repr(deep_realize(x)))
    return repr(x)


def format_value(x, conv, spec):
    if conv == 115:
        x = to_str(x)
    elif conv == 114:
        x = to_repr(x)
    elif conv == 97:
        x = ascii(realize(x))
    if type(spec) is str and spec == '':
        t = type(x)
        if t is SymStr or t is SymInt:
            return to_str(x)
        if t in SYMSET or deep_has_sym(x):
            return to_str(x)
        if isinstance(getattr(t, '__format__', None), types.FunctionType):
            return t.__format__(x, '')
        if t.__format__ is object.__format__:
            return to_str(x)
        return format(x, '')
    if is_sym(x) or is_sym(spec):
        return lazy(lambda: format(realize(x), realize(spec)))
    return format(x, spec)


def fstring(*parts):
    """parts: str constants or (value, conversion, spec)."""
    out = []
    for p in parts:
        if type(p) is tuple:
            p = format_value(*p)
        out.append(p)
    return concat(out)


def binop_mod(a, b):
    if isinstance(a, str) and type(a) not in SYMSET and deep_has_sym(b):
        args = b if isinstance(b, tuple) else (b,)
        if not isinstance(b, dict):
            pieces = re.split(r'(%%|%[sdr])', a)
            if '%' not in ''.join(p for p in pieces if not re.fullmatch(r'%%|%[sdr]', p)) and \
                    sum(1 for p in pieces if re.fullmatch('%[sdr]', p)) == len(args):
                it = iter(args)
                out = []
                for p in pieces:
                    if p == '%%':
                        out.append('%')
                    elif re.fullmatch('%[sd]', p):
                        out.append(to_str(next(it)))
                    elif p == '%r':
                        out.append(to_repr(next(it)))
                    else:
                        out.append(p)
                return concat(out)
        else:
            pieces = re.split(r'(%%|%\(\w+\)[sdr])', a)
            named = [re.fullmatch(r'%\((\w+)\)([sdr])', p) for p in pieces]
            if all(m or p == '%%' or '%' not in p for m, p in zip(named, pieces)) and \
                    all(m is None or m[1] in b for m in named):
                return concat([(to_repr if m[2] == 'r' else to_str)(b[m[1]]) if m
                               else '%' if p == '%%' else p for m, p in zip(named, pieces)])
        return lazy(lambda: a % deep_realize(b))
    return a % b


def _setlike(x):
    return type(x) in (set, frozenset, type({}.keys()), type({}.items()))


def binop_set(op, a, b):
    if _setlike(a) and _setlike(b) and (has_sym(a) or has_sym(b)):
        if op == '|':
            r = set_of(list(a) + list(b))
        elif op == '&':
            r = set_of([x for x in a if contains(x, b)])
        elif op == '-':
            r = set_of([x for x in a if not contains(x, b)])
        else:
            r = set_of([x for x in a if not contains(x, b)]
                       + [x for x in b if not contains(x, a)])
        return frozenset(r) if type(a) is frozenset else r
    if op == '|':
        if isinstance(a, dict) and isinstance(b, dict) and (has_sym(a) or has_sym(b)):
            r = dict(a)
            for k, v in b.items():
                setitem(v, r, k)
            return r
        return a | b
    if op == '&':
        return a & b
    if op == '-':
        return a - b
    return a ^ b


# --------------------------------------------------------------------------- calls
def _wrapf(f):
    """A native callable that will be invoked by C code with symbolic arguments."""
    if f is None or isinstance(f, (types.FunctionType, types.MethodType)):
        return f
    return lambda *a, **k: call(f, *a, **k)


def h_isinstance(x, c):
    if type(x) in SYMSET:
        return isinstance(PROTO[type(x)], c)
    return isinstance(x, c)


def h_type(*a):
    if len(a) == 1 and type(a[0]) in REALTYPE:
        return REALTYPE[type(a[0])]
    return type(*a)


def h_str(*a, **k):
    if len(a) == 1 and not k:
        return to_str(a[0])
    if a and type(a[0]) is SymBytes:
        return a[0].decode(*a[1:], **k)
    return str(*map(realize, a), **k)


def h_int(*a, **k):
    if not a:
        return int(**k)
    x = a[0]
    t = type(x)
    if t is SymStr:
        base = k.get('base', a[1] if len(a) > 1 else 10)
        return parse_int(x, base)
    if t is SymInt:
        return x
    if t is SymBool:
        return mkint(num_node(x))
    if t is SymFloat:
        return x.__trunc__()
    return int(*map(realize, a), **k)


def h_float(*a):
    if not a:
        return 0.0
    x = a[0]
    t = type(x)
    if t is SymStr:
        return parse_float(x)
    if t is SymInt:
        return int_to_float(x)
    if t is SymBool:
        from .values import mkreal
        return mkreal(T.to_real(num_node(x)))
    if t is SymFloat:
        return x
    return float(*a)


def h_complex(*a, **k):
    parts = list(a) + list(k.values())
    if len(parts) == 1 and not k and type(parts[0]) is SymComplex:
        return parts[0]
    if not any(type(x) in SYMSET for x in parts):
        return complex(*a, **k)
    if len(a) > 2 or not set(k) <= {'real', 'imag'} - set(('real', 'imag')[:len(a)]) \
            or not all(type(x) in (SymInt, SymFloat, SymBool, int, float, bool) for x in parts):
        return complex(*map(realize, a), **{n: realize(v) for n, v in k.items()})
    re = a[0] if a else k.get('real', 0.0)
    im = a[1] if len(a) > 1 else k.get('imag', 0.0)
    return SymComplex(h_float(re), h_float(im))


def h_bool(*a):
    if not a:
        return False
    x = a[0]
    t = type(x)
    if t is SymBool:
        return x
    if t is SymInt:
        return mkbool(T.not_(T.eq(x._n, T.intc(0))))
    if t is SymFloat:
        return mkbool(T.not_(T.eq(x._n, T.realc(0))))
    return bool(x)


def h_bytes(*a, **k):
    if len(a) == 1 and type(a[0]) is SymBytes:
        return a[0]
    if len(a) == 1 and isinstance(a[0], (list, tuple)):
        from .values import mkbytes
        out = []
        for x in a[0]:
            if type(x) is SymInt:
                if not bool((x >= 0)) or not bool(x < 256):
                    raise ValueError('bytes must be in range(0, 256)')
                out.append(x._n)
            else:
                out.append(int(x))
        return mkbytes(out)
    if a and type(a[0]) is SymStr:
        return a[0].encode(*a[1:], **k)
    return bytes(*map(realize, a), **k)


def h_dict(*a, **k):
    d = {}
    if a:
        src = a[0]
        if hasattr(src, 'keys'):
            if type(src) is dict:
                d = src.copy()
            else:
                for key in src.keys():
                    setitem(getitem(src, key), d, key)
        else:
            for item in src:
                x, y = item
                setitem(y, d, x)
    for x, y in kwin(k).items():
        setitem(y, d, x)
    return d


def h_set(*a):
    return set_of(a[0]) if a else set()


def h_frozenset(*a):
    return frozenset(set_of(a[0])) if a else frozenset()


def h_map(f, *its):
    return map(_wrapf(f), *its)


def h_filter(f, it):
    return filter(_wrapf(f), it)


def h_repr(x):
    return to_repr(x)


def h_getattr(o, name, *d):
    name = realize(name)
    if type(o) in SYMSET and not hasattr(PROTO[type(o)], name):
        if d:
            return d[0]
        raise AttributeError(name)
    return getattr(o, name, *d)


def h_hasattr(o, name):
    name = realize(name)
    if type(o) in SYMSET:
        return hasattr(PROTO[type(o)], name)
    return hasattr(o, name)


def h_setattr(o, name, v):
    return setattr(o, realize(name), v)


def h_delattr(o, name):
    return delattr(o, realize(name))


def h_len(x):
    return len(x)


def h_range(*a):
    return range(*[x.__index__() if is_sym(x) else x for x in a])


def h_callable(x):
    return False if is_sym(x) else callable(x)


def h_print(*a, sep=' ', end='\n', file=None, flush=False):
    out = sys.stdout if file is None else file
    if out is sys.__stdout__ or out is sys.__stderr__:
        return None
    # as the builtin does, piece by piece
    for i, x in enumerate(a):
        if i and sep != '':
            out.write(' ' if sep is None else sep)
        out.write(to_str(x))
    out.write('\n' if end is None else end)
    return None


def h_format(x, spec=''):
    return format_value(x, -1, spec)


def h_chr(x):
    if type(x) is SymInt:
        from .values import mkstr
        if not bool(x >= 0) or not bool(x <= 0x10FFFF):
            raise ValueError('chr() arg not in range(0x110000)')
        return mkstr((x._n,))
    return chr(x)


def h_ord(x):
    if type(x) is SymStr:
        c = x._fix()
        if len(c) != 1:
            raise TypeError('ord() expected a character')
        return mkint(c[0]) if type(c[0]) is not int else c[0]
    return ord(x)


def h_partial(f, /, *a, **k):
    return functools.partial(_wrapf(f), *a, **k)


def h_sorted(it, *, key=None, reverse=False):
    return sorted(it, key=_wrapf(key) if key is not None else None, reverse=reverse)


def h_minmax(fn):
    def h(*a, **k):
        if 'key' in k and k['key'] is not None:
            k['key'] = _wrapf(k['key'])
        return fn(*a, **k)
    return h


def h_slice(*a):
    return slice(*a)


def h_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def h_pass(f):
    return f


# builtin functions and types called with symbolic content
TABLE = {
    isinstance: h_isinstance,
    type: h_type,
    str: h_str,
    int: h_int,
    float: h_float,
    complex: h_complex,
    bool: h_bool,
    bytes: h_bytes,
    dict: h_dict,
    set: h_set,
    frozenset: h_frozenset,
    map: h_map,
    filter: h_filter,
    repr: h_repr,
    getattr: h_getattr,
    hasattr: h_hasattr,
    setattr: h_setattr,
    delattr: h_delattr,
    len: h_len,
    range: h_range,
    callable: h_callable,
    print: h_print,
    format: h_format,
    chr: h_chr,
    ord: h_ord,
    functools.partial: h_partial,
    sorted: h_sorted,
    min: h_minmax(min),
    max: h_minmax(max),
    slice: h_slice,
    sum: h_sum,
}

# native callables that cope with symbolic values by themselves
NATIVE_OK = {
    list, tuple, enumerate, zip, reversed, iter, next, any, all, hash, id, abs, divmod, round,
    object, super, property, staticmethod, classmethod, collections.deque,
    collections.OrderedDict, collections.defaultdict,
    functools.reduce, operator.eq, operator.ne, operator.lt, operator.le, operator.gt,
    operator.ge, operator.add, operator.sub, operator.mul, operator.not_, operator.truth,
    operator.neg, operator.index,
    BaseException, types.SimpleNamespace, types.MappingProxyType,
}
TABLE[operator.contains] = lambda c, x: contains(x, c)
TABLE[operator.getitem] = getitem
TABLE[operator.is_] = op_is

# Python functions of the standard library that need concrete data
REALIZE_MODULES = {'json', 'yaml', 'omegaconf', 'dateparser', 'logging', 'textwrap', 'shutil',
                   'ntpath', 'ast', 'tokenize', 'difflib', 'posixpath',
                   'genericpath', 'os', 'pathlib', 'subprocess', 'shlex'}


# ---- methods of builtin containers
def _dict_get(d, key, default=None):
    k = dict_find(d, key)
    return default if k is MISS else dict.__getitem__(d, k)


def _dict_pop(d, key, *default):
    k = dict_find(d, key)
    if k is MISS:
        if default:
            return default[0]
        raise KeyError(key)
    v = dict.__getitem__(d, k)
    type(d).__delitem__(d, k)
    return v


def _dict_setdefault(d, key, default=None):
    k = dict_find(d, key)
    if k is MISS:
        d[key] = default
        return default
    return dict.__getitem__(d, k)


def _dict_update(d, /, *a, **kw):
    if a:
        src = a[0]
        if hasattr(src, 'keys'):
            for k in list(src.keys()):
                setitem(getitem(src, k), d, k)
        else:
            for k, v in src:
                setitem(v, d, k)
    for k, v in kwin(kw).items():
        setitem(v, d, k)


def _set_union(s, *others):
    r = set_of(s)
    for o in others:
        for x in o:
            if not contains(x, r):
                r.add(x)
    return frozenset(r) if type(s) is frozenset else r


def _set_add(s, x):
    if not contains(x, s):
        s.add(x)


def _set_remove(s, x):
    for k in list(s):
        if equal(k, x):
            s.remove(k)
            return
    raise KeyError(x)


def _set_discard(s, x):
    for k in list(s):
        if equal(k, x):
            s.remove(k)
            return


def _set_update(s, *others):
    for o in others:
        for x in o:
            _set_add(s, x)


def _set_inter(s, *others):
    r = list(s)
    for o in others:
        o = list(o)
        r = [x for x in r if contains(x, o)]
    r = set_of(r)
    return frozenset(r) if type(s) is frozenset else r


def _set_diff(s, *others):
    r = list(s)
    for o in others:
        o = list(o)
        r = [x for x in r if not contains(x, o)]
    r = set_of(r)
    return frozenset(r) if type(s) is frozenset else r


def _str_join(s, it):
    return lift(s).join(it)


def _bytes_join(s, it):
    items = list(it)
    if not any(type(x) is SymBytes for x in items) or not all(is_bytes(x) for x in items):
        return s.join(items)
    codes = []
    for i, x in enumerate(items):
        if i:
            codes.extend(s)
        codes.extend(bcodes(x))
    return mkbytes(tuple(codes))


def _str_format(s, /, *a, **k):
    if not deep_has_sym(a) and not deep_has_sym(tuple(k.values())):
        return str.format(s, *a, **k)
    out = []
    auto = 0
    for lit, field, spec, conv in _string.Formatter().parse(s):
        out.append(lit)
        if field is None:
            continue
        if field == '':
            field = str(auto)
            auto += 1
        if not field.isidentifier() and not field.isdigit() or spec:
            return lazy(lambda: s.format(*deep_realize(a), **deep_realize(k)))
        v = a[int(field)] if field.isdigit() else k[field]
        out.append(format_value(v, ord(conv) if conv else -1, ''))
    return concat(out)


METHODS = {
    (dict, 'get'): _dict_get,
    (dict, 'pop'): _dict_pop,
    (dict, 'setdefault'): _dict_setdefault,
    (dict, 'update'): _dict_update,
    (dict, '__getitem__'): getitem,
    (dict, '__setitem__'): lambda d, k, v: setitem(v, d, k),
    (dict, '__delitem__'): delitem,
    (dict, '__contains__'): lambda d, k: contains(k, d),
    (set, 'union'): _set_union,
    (set, 'add'): _set_add,
    (set, 'remove'): _set_remove,
    (set, 'discard'): _set_discard,
    (set, 'update'): _set_update,
    (set, 'intersection'): _set_inter,
    (set, 'difference'): _set_diff,
    (set, 'issubset'): lambda s, o: all(contains(x, list(o)) for x in s),
    (set, 'issuperset'): lambda s, o: all(contains(x, s) for x in o),
    (set, 'isdisjoint'): lambda s, o: not any(contains(x, s) for x in o),
    (set, '__contains__'): lambda s, x: contains(x, s),
    (frozenset, 'union'): _set_union,
    (frozenset, 'intersection'): _set_inter,
    (frozenset, 'difference'): _set_diff,
    (frozenset, 'issubset'): lambda s, o: all(contains(x, list(o)) for x in s),
    (frozenset, 'issuperset'): lambda s, o: all(contains(x, s) for x in o),
    (frozenset, '__contains__'): lambda s, x: contains(x, s),
    (str, 'join'): _str_join,
    (str, 'format'): _str_format,
    (bytes, 'join'): _bytes_join,
}
METHOD_NAMES = {}
for (_t, _n), _h in METHODS.items():
    METHOD_NAMES.setdefault(_n, []).append((_t, _h))

NATIVE_METHOD_SELF = (list, tuple, collections.deque, types.GeneratorType)
PASS_NAMES = {'__init__', '__new__', '__setattr__', '__call__', '__init_subclass__',
              '__set_name__', '__eq__', '__ne__', '__exit__', '__enter__', 'with_traceback',
              '__reduce__', '__set__', '__get__', '__setstate__', 'send', 'throw', 'close'}

BuiltinType = types.BuiltinFunctionType
CMethod = type(re.compile('').match)      # methods that know their defining class
MethodWrapper = types.MethodWrapperType
WrapperDesc = types.WrapperDescriptorType
MethodDesc = types.MethodDescriptorType
ClassMethodDesc = types.ClassMethodDescriptorType
LruType = type(functools.lru_cache(None)(lambda: None))
FUNCS = (types.FunctionType, types.MethodType)

PYFUNCS = {}        # Python function -> replacement (see models.py)


def container_sym(x):
    """Shallow: does a builtin container hold symbolic values."""
    t = type(x)
    if t in SYMSET:
        return True
    if t in (list, tuple, set, frozenset, dict):
        return has_sym(x)
    return False


class KeyStr(str):
    """A keyword argument whose name is symbolic; the text itself is never a real name."""
    def __new__(cls, sym):
        self = str.__new__(cls, f'\x00name{id(sym)}')
        self.sym = sym
        return self


def kwout(m):
    """Mapping given as **m in a call."""
    if E.CTX is not None and type(m) is dict and any(type(k) in SYMSET for k in m):
        return {KeyStr(k) if type(k) in SYMSET else k: v for k, v in m.items()}
    return m


def kwin(m):
    """Mapping received as **m in a function."""
    for k in m:
        if type(k) is KeyStr:
            return {k.sym if type(k) is KeyStr else k: v for k, v in m.items()}
    return m


def _bind_names(f, kw):
    """Decide which parameters symbolic keyword names refer to."""
    try:
        names = [p.name for p in inspect.signature(f).parameters.values()
                 if p.kind in (p.POSITIONAL_OR_KEYWORD, p.KEYWORD_ONLY)]
    except (TypeError, ValueError):
        names = []
    out = {}
    for k, v in kw.items():
        if type(k) is KeyStr:
            for n in names:
                if bool(k.sym == n):
                    k = n
                    break
            else:
                for o in kw:
                    if type(o) is not KeyStr and o not in names and bool(k.sym == o):
                        raise TypeError(f'got multiple values for keyword argument {o!r}')
        if k in out:
            raise TypeError(f'got multiple values for keyword argument {k!r}')
        out[k] = v
    return out


def call(f, /, *args, **kw):
    tf = type(f)
    ctx = E.CTX
    if kw:
        for _k in kw:
            if type(_k) is KeyStr:
                if f is dict:
                    return h_dict(*args, **kw)
                if tf is BuiltinType and f.__name__ == 'update' and type(f.__self__) is dict:
                    return _dict_update(f.__self__, *args, **kw)
                kw = _bind_names(f, kw)
                break
    if tf is types.FunctionType or tf is types.MethodType:
        if ctx is not None:
            ctx.steps += 1
            if not ctx.steps & 255:
                ctx.tick()
            g = f if tf is types.FunctionType else f.__func__
            r = PYFUNCS.get(g)
            if r is not None:
                return r(*args, **kw) if tf is types.FunctionType else r(f.__self__, *args, **kw)
            m = getattr(g, '__module__', None)
            if m is not None and not m.startswith(('marsh', 'harness')):
                top = m.partition('.')[0]
                if top in REALIZE_MODULES and g.__code__.co_filename != 'stand_in' and (deep_has_sym(args) or deep_has_sym(kw)):
                    args = [deep_realize(a) for a in args]
                    kw = {k: deep_realize(v) for k, v in kw.items()}
        return f(*args, **kw)
    if ctx is None:
        return f(*args, **kw)
    if tf is BuiltinType or tf is MethodWrapper or tf is CMethod:
        s = f.__self__
        if s is not None and not isinstance(s, types.ModuleType) and not isinstance(s, type):
            return _call_method(s, f, args, kw)
        h = TABLE.get(f)
        if h is not None:
            if has_sym(args) or f in _ALWAYS:
                return h(*args, **kw)
            return f(*args, **kw)
        if f in NATIVE_OK:
            return f(*args, **kw)
        if f.__name__ in PASS_NAMES or not (has_sym(args) or has_sym(kw.values())):
            return f(*args, **kw)
        return f(*[realize(a) for a in args], **{k: realize(v) for k, v in kw.items()})
    if isinstance(f, type):
        h = TABLE.get(f)
        if h is not None:
            return h(*args, **kw)
        if f in NATIVE_OK or f.__flags__ & 512 == 0:
            return f(*args, **kw)
        if not has_sym(args) and not has_sym(kw.values()):
            return f(*args, **kw)
        if isinstance(f, enum.EnumMeta):
            return _call_enum(f, args, kw)
        if issubclass(f, (int, float, str, bytes, complex)):
            return f(*[realize(a) for a in args], **{k: realize(v) for k, v in kw.items()})
        return f(*args, **kw)
    if tf is LruType:
        if has_sym(args) or has_sym(kw.values()) or deep_has_sym(args):
            ctx.touched_caches[id(f)] = f
        return f(*args, **kw)
    if tf is functools.partial:
        return call(f.func, *f.args, *args, **{**f.keywords, **kw})
    if tf is MethodDesc or tf is WrapperDesc:
        if args:
            a0 = args[0]
            if f is str.__str__ and type(a0) in SYMSET and len(args) == 1 and isinstance(lift(a0), SymStr):
                return a0
            if type(a0) in SYMSET:
                return call(getattr(a0, f.__name__), *args[1:], **kw)
            if f.__name__ in PASS_NAMES:
                return f(*args, **kw)
            for t, h in METHOD_NAMES.get(f.__name__, ()):
                if isinstance(a0, t) and f.__objclass__ is t:
                    return h(*args, **kw)
        return f(*args, **kw)
    if isinstance(f, re.Pattern):
        return f(*args, **kw)
    if tf is operator.itemgetter or tf is operator.attrgetter:
        return f(*args, **kw)
    return f(*args, **kw)


_ALWAYS = {sorted, min, max, sum, repr, format, print}


def _call_enum(f, args, kw):
    if len(args) == 1 and not kw:
        v = args[0]
        for m in f:
            if equal(m._value_, v):
                return m
        if f._missing_.__func__ is not enum.Enum._missing_.__func__:
            return f(realize(v))
        raise ValueError(f'not a valid {f.__qualname__}')
    return f(*map(realize, args), **kw)


def _call_method(s, f, args, kw):
    name = f.__name__
    t = type(s)
    h = METHODS.get((t, name))
    if h is None and t not in SYMSET:
        for bt, bh in METHOD_NAMES.get(name, ()):
            if isinstance(s, bt) and getattr(t, name, None) is getattr(bt, name, None):
                h = bh
                break
    if h is not None:
        if isinstance(s, (dict, set, frozenset)):
            if has_sym(args) or has_sym(s) or any(container_sym(a) for a in args):
                return h(s, *args, **kw)
            return f(*args, **kw)
        return h(s, *args, **kw)
    if isinstance(s, NATIVE_METHOD_SELF) or name in PASS_NAMES:
        if t is list and name == 'sort' and kw.get('key') is not None:
            kw['key'] = _wrapf(kw['key'])
        if t is list and name in ('pop', 'insert') and args and type(args[0]) is SymInt:
            n = len(s)
            i = args[0]
            if name == 'pop':
                if n == 0 or not bool(i >= -n) or not bool(i < n):
                    raise IndexError('pop index out of range')
                return s.pop(int(E.CTX.choose(i._n, -n, n - 1)))
            return s.insert(i.__index__(), args[1])
        return f(*args, **kw)
    if isinstance(s, str) and (has_sym(args) or any(container_sym(a) for a in args)
                               or has_sym(kw.values())):
        return getattr(lift(s), name)(*args, **kw)
    if isinstance(s, bytes) and has_sym(args):
        from .values import SymBytes as SB
        return getattr(SB(tuple(s)), name)(*args, **kw)
    if isinstance(s, re.Pattern) and (has_sym(args) or has_sym(kw.values())):
        from . import rx
        return rx.call(s, name, args, kw)
    if isinstance(s, collections.OrderedDict) or isinstance(s, dict):
        return f(*args, **kw)
    if isinstance(s, (set, frozenset)) and (has_sym(args) or has_sym(s)
                                            or any(container_sym(a) for a in args)):
        return f(*[deep_realize(a) for a in args], **kw)
    if isinstance(s, (int, float)) and has_sym(args):
        return f(*[realize(a) for a in args], **kw)
    if name == 'strftime' and has_sym(args):
        # without directives the format is the result; '%%' stands for '%'
        if not contains('%', args[0].replace('%%', '')):
            return args[0].replace('%%', '%')
    if has_sym(args) or has_sym(kw.values()):
        if isinstance(f, BuiltinType):
            return f(*[realize(a) for a in args], **{k: realize(v) for k, v in kw.items()})
    return f(*args, **kw)


# --------------------------------------------------------------------------- installation
ENTERED = set()
FUNC_NAMES = []


def enter(i):
    ctx = E.CTX
    if ctx is not None:
        ENTERED.add(i)
        ctx.steps += 1
        if not ctx.steps & 127:
            ctx.tick()


def loop():
    ctx = E.CTX
    if ctx is not None:
        ctx.tick()


def dictcomp(pairs):
    d = {}
    for k, v in pairs:
        setitem(v, d, k)
    return d


def install():
    b = builtins.__dict__
    b['__sx_call__'] = call
    b['__sx_kwin__'] = kwin
    b['__sx_kwout__'] = kwout
    b['__sx_getitem__'] = getitem
    b['__sx_setitem__'] = setitem
    b['__sx_delitem__'] = delitem
    b['__sx_in__'] = op_in
    b['__sx_not_in__'] = op_not_in
    b['__sx_is__'] = op_is
    b['__sx_is_not__'] = op_is_not
    b['__sx_dict__'] = dict_display
    b['__sx_dictcomp__'] = dictcomp
    b['__sx_set__'] = set_of
    b['__sx_fstr__'] = fstring
    b['__sx_mod__'] = binop_mod
    b['__sx_bin__'] = binop_set
    b['__sx_enter__'] = enter
    b['__sx_loop__'] = loop
