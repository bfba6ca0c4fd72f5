"""Stand-ins for library functions the code under test calls with symbolic data."""
import base64
import binascii
import copy
import difflib
import functools
import os
import os.path
import re
import types

from . import base
from . import engine as E
from . import hooks as H
from . import terms as T
from .values import (
    SYMSET, SymBytes, SymStr, bcodes, code_node, codes_of, is_bytes, is_str, mkbytes, norm_code,
)

I = T.intc
STD = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
URL = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_'


def enc6(v, alphabet):
    """Character code of the 6 bit value node v."""
    a, b = alphabet[62], alphabet[63]
    return T.ite(T.lt(v, I(26)), T.add(v, I(65)),
                 T.ite(T.lt(v, I(52)), T.add(v, I(71)),
                       T.ite(T.lt(v, I(62)), T.sub(v, I(4)),
                             T.ite(T.eq(v, I(62)), I(a), I(b)))))


def encode(data, alphabet):
    c = [code_node(x) for x in bcodes(data)]
    out = []
    for i in range(0, len(c), 3):
        g = c[i:i + 3]
        n = len(g)
        g = g + [I(0)] * (3 - n)
        # sextets through fresh quotient/remainder variables would be non-local;
        # div/mod by constants is decided directly
        s = [T.idiv(g[0], I(4)),
             T.add(T.mul(I(16), T.mod(g[0], I(4))), T.idiv(g[1], I(16))),
             T.add(T.mul(I(4), T.mod(g[1], I(16))), T.idiv(g[2], I(64))),
             T.mod(g[2], I(64))]
        s = [enc6(x, alphabet) for x in s]
        if n == 1:
            s[2:] = [I(61), I(61)]
        elif n == 2:
            s[3:] = [I(61)]
        out.extend(s)
    return mkbytes(out)


def classify(c, alphabet):
    """(valid formula, value node) for a base64 character code."""
    c = code_node(c)
    up = T.in_ranges(c, ((65, 90),))
    lo = T.in_ranges(c, ((97, 122),))
    dg = T.in_ranges(c, ((48, 57),))
    p = T.eq(c, I(alphabet[62]))
    s = T.eq(c, I(alphabet[63]))
    val = T.ite(up, T.sub(c, I(65)),
                T.ite(lo, T.sub(c, I(71)),
                      T.ite(dg, T.add(c, I(4)), T.ite(p, I(62), I(63)))))
    return T.or_(up, lo, dg, p, s), val


def decode(data, alphabet, validate=False):
    """binascii.a2b_base64 in non-strict mode: skips foreign characters."""
    if is_str(data):
        codes = codes_of(data)
        if not E.CTX.decide(T.and_(*[T.lt(code_node(c), I(128)) for c in codes])):
            raise ValueError('string argument should contain only ASCII characters')
    elif is_bytes(data):
        codes = bcodes(data)
    else:
        raise TypeError("argument should be a bytes-like object or ASCII string")
    if validate:
        return base64.b64decode(H.deep_realize(data), validate=True)
    ctx = E.CTX
    out = []
    quad = pads = 0
    left = I(0)
    for c in codes:
        c = norm_code(c)
        n = code_node(c)
        if ctx.decide(T.eq(n, I(61)), prefer=False):
            # C: if (quad_pos >= 2 && quad_pos + ++pads >= 4) -> done
            if quad >= 2:
                pads += 1
                if quad + pads >= 4:
                    return mkbytes(out)
            continue
        ok, val = classify(c, alphabet)
        if not ctx.decide(ok):
            continue
        pads = 0
        if quad == 0:
            left = val
            quad = 1
        elif quad == 1:
            out.append(T.add(T.mul(I(4), left), T.idiv(val, I(16))))
            left = T.mod(val, I(16))
            quad = 2
        elif quad == 2:
            out.append(T.add(T.mul(I(16), left), T.idiv(val, I(4))))
            left = T.mod(val, I(4))
            quad = 3
        else:
            out.append(T.add(T.mul(I(64), left), val))
            quad = 0
    if quad == 1:
        raise binascii.Error('Invalid base64-encoded string: number of data characters '
                             'cannot be 1 more than a multiple of 4')
    if quad:
        raise binascii.Error('Incorrect padding')
    return mkbytes(out)


def _sym1(f, model):
    @functools.wraps(f)
    def g(*a, **k):
        if any(type(x) in SYMSET for x in a) or any(type(x) in SYMSET for x in k.values()):
            return model(*a, **k)
        return f(*a, **k)
    return g


def m_b64encode(s, altchars=None):
    al = STD if altchars is None else STD[:62] + bytes(altchars)
    if not is_bytes(s):
        raise TypeError('a bytes-like object is required')
    return encode(s, al)


def m_b64decode(s, altchars=None, validate=False):
    if altchars is None:
        return decode(s, STD, validate)
    alt = bytes(altchars) if not isinstance(altchars, str) else altchars.encode()
    # b64decode translates altchars to "+/" and still accepts "+" and "/"
    if is_str(s):
        s = SymStr(codes_of(s)).encode('ascii') if isinstance(s, (str, SymStr)) else s
    table = bytearray(range(256))
    table[alt[0]], table[alt[1]] = 43, 47
    data = SymBytes(bcodes(s)).translate(bytes(table))
    return decode(data, STD, validate)


def m_urlsafe_b64decode(s):
    if is_str(s):
        codes = codes_of(s)
        if not E.CTX.decide(T.and_(*[T.lt(code_node(c), I(128)) for c in codes])):
            raise ValueError('string argument should contain only ASCII characters')
        s = mkbytes(codes)
    if not is_bytes(s):
        raise TypeError('argument should be a bytes-like object or ASCII string')
    return m_b64decode(s, b'-_')


def m_a2b(data, *, strict_mode=False):
    if strict_mode:
        return binascii.a2b_base64(H.deep_realize(data), strict_mode=True)
    return decode(data, STD)


def m_b2a(data, *, newline=True):
    r = encode(data, STD)
    return r + b'\n' if newline else r


def m_get_close_matches(word, possibilities, n=3, cutoff=0.6):
    possibilities = list(possibilities)
    if not H.has_sym((word,)) and not H.has_sym(possibilities):
        return difflib.get_close_matches(word, possibilities, n, cutoff)
    if base.EXACT_DIFFLIB:
        from . import stdlib
        return stdlib.DIFFLIB.get_close_matches(word, possibilities, n, cutoff)
    # only used to phrase a message: type requirements are kept, the result is empty
    if not is_str(word) and not isinstance(word, (list, tuple)):
        raise TypeError('object is not iterable')
    for p in possibilities:
        if not is_str(p) and not isinstance(p, (list, tuple)):
            raise TypeError('object has no len()')
    return []


def _re_fn(method):
    def f(pattern, string, *a, **k):
        fn = getattr(re, method)
        if not H.deep_has_sym((pattern, string, a)):
            return fn(pattern, string, *a, **k)
        flags = k.pop('flags', 0)
        if method in ('match', 'search', 'fullmatch'):
            if a:
                flags = a[0]
            pat = re.compile(H.realize(pattern), flags)
            from . import rx
            return rx.call(pat, method, (string,), {})
        return fn(*[H.deep_realize(x) for x in (pattern, string) + a], flags=flags, **k)
    return f


def m_re_sub(pattern, repl, string, *a, **k):
    return re.sub(H.deep_realize(pattern), H.deep_realize(repl), H.deep_realize(string), *a, **k)


def m_deepcopy(x, memo=None):
    return copy.deepcopy(x, memo)


class Lru:
    """functools.lru_cache for caches made while a path runs: keys are compared, not hashed."""

    def __init__(self, fn, maxsize, typed):
        self.fn, self.typed = fn, typed
        self.maxsize = maxsize if maxsize is None else max(maxsize, 0)
        self.cache_clear()
        functools.update_wrapper(self, fn)

    def cache_clear(self):
        self.entries, self.hits, self.misses = [], 0, 0

    def cache_info(self):
        return functools._CacheInfo(self.hits, self.misses, self.maxsize, len(self.entries))

    def cache_parameters(self):
        return {'maxsize': self.maxsize, 'typed': self.typed}

    def __get__(self, obj, cls=None):
        return self if obj is None else types.MethodType(self, obj)

    def kind(self, x):
        t = type(x)
        return H.REALTYPE.get(t, t)

    def key(self, args, kw):
        parts = list(args) + [x for item in kw.items() for x in item]
        for x in parts:
            hash(x)
        kinds = [self.kind(x) for x in parts]
        fast = not self.typed and not kw and len(parts) == 1 and kinds[0] in (int, str)
        return len(args), parts, kinds, fast

    def same(self, a, b):
        return (a[0] == b[0] and len(a[1]) == len(b[1]) and a[3] == b[3]
                and (not self.typed or a[2] == b[2])
                and all(H.equal(x, y) for x, y in zip(a[1], b[1])))

    def find(self, key):
        for i, (k, _) in enumerate(self.entries):
            if self.same(k, key):
                return i
        return None

    def __call__(self, /, *args, **kw):
        if self.maxsize == 0:
            self.misses += 1
            return H.call(self.fn, *args, **kw)
        key = self.key(args, kw)
        i = self.find(key)
        if i is not None:
            self.hits += 1
            entry = self.entries.pop(i)
            self.entries.append(entry)
            return entry[1]
        self.misses += 1
        r = H.call(self.fn, *args, **kw)
        if self.find(key) is None:
            if self.maxsize is not None and len(self.entries) >= self.maxsize:
                self.entries.pop(0)
            self.entries.append((key, r))
        return r


def m_lru_cache(maxsize=128, typed=False):
    if E.CTX is None:
        return functools.lru_cache(maxsize, typed)
    if callable(maxsize):
        return Lru(maxsize, 128, typed)
    return lambda fn: Lru(fn, maxsize, typed)


def install():
    H.PYFUNCS.update({
        base64.b64encode: _sym1(base64.b64encode, m_b64encode),
        base64.b64decode: _sym1(base64.b64decode, m_b64decode),
        base64.standard_b64encode: _sym1(base64.standard_b64encode, m_b64encode),
        base64.standard_b64decode: _sym1(base64.standard_b64decode, m_b64decode),
        base64.urlsafe_b64encode: _sym1(base64.urlsafe_b64encode,
                                        lambda s: m_b64encode(s, b'-_')),
        base64.urlsafe_b64decode: _sym1(base64.urlsafe_b64decode, m_urlsafe_b64decode),
        difflib.get_close_matches: m_get_close_matches,
        re.match: _re_fn('match'),
        re.search: _re_fn('search'),
        re.fullmatch: _re_fn('fullmatch'),
        re.sub: m_re_sub,
        re.findall: _re_fn('findall'),
        re.split: _re_fn('split'),
        functools.lru_cache: m_lru_cache,
        functools.cache: lambda fn: m_lru_cache(None)(fn),
    })
    H.TABLE[binascii.a2b_base64] = m_a2b
    H.TABLE[binascii.b2a_base64] = m_b2a
