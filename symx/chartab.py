"""Unicode character classes as sorted inclusive ranges, built from the running Python."""
import functools
import sys


def _ranges(pred):
    out = []
    start = None
    for c in range(sys.maxunicode + 2):
        ok = c <= sys.maxunicode and not 0xD800 <= c <= 0xDFFF and pred(chr(c))
        if ok and start is None:
            start = c
        elif not ok and start is not None:
            out.append((start, c - 1))
            start = None
    return tuple(out)


@functools.lru_cache(None)
def table(name):
    """Ranges of characters for which str.<name>() holds; restricted lazily by the caller."""
    if name == 'isspace':
        return _ranges(str.isspace)
    return _ranges(getattr(str, name))


@functools.lru_cache(None)
def small(name, hi):
    out = []
    start = None
    f = getattr(str, name)
    for c in range(hi + 2):
        ok = c <= hi and f(chr(c))
        if ok and start is None:
            start = c
        elif not ok and start is not None:
            out.append((start, c - 1))
            start = None
    return tuple(out)


def ranges(name, hi):
    if hi is None or hi > 0x3FF:
        return table(name)
    return small(name, hi)


@functools.lru_cache(None)
def case_map(method, lo, hi):
    """Characters in lo..hi whose <method> differs: tuple of (lo, hi, delta) runs,
    plus the set of characters with multi-character results."""
    runs = []
    multi = []
    f = getattr(str, method)
    cur = None
    for c in range(lo, hi + 1):
        if 0xD800 <= c <= 0xDFFF:
            continue
        r = f(chr(c))
        if len(r) != 1:
            multi.append(c)
            d = 0
        else:
            d = ord(r) - c
        if d == 0:
            cur = None
            continue
        if cur is not None and cur[2] == d and cur[1] == c - 1:
            cur[1] = c
        else:
            cur = [c, c, d]
            runs.append(cur)
    return tuple(map(tuple, runs)), tuple(multi)
