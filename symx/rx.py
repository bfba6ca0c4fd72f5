"""Symbolic matching of compiled regular expressions on fixed-length strings.

Only whether a pattern matches is decided symbolically (as one formula over the
characters); group contents are obtained by concretising the string.
"""
import re
from re import _constants as C
from re import _parser as P

from . import engine as E
from . import terms as T
from . import chartab
from .values import SymStr, code_node, lift, mkbool

I = T.intc


class Unsupported(Exception):
    pass


class SymMatch:
    """Truthy match result; anything else concretises the subject."""

    def __init__(self, pattern, method, subject):
        self._a = (pattern, method, subject)

    def __bool__(self):
        return True

    def __getattr__(self, name):
        pat, method, subject = self._a
        m = getattr(pat, method)(str(subject))
        return getattr(m, name)

    def __getitem__(self, i):
        return self.__getattr__('__getitem__')(i)


def category(cat, c, flags):
    n = code_node(c)
    hi = T.bounds(n)[1]
    ascii_ = flags & re.ASCII
    neg = cat in (C.CATEGORY_NOT_DIGIT, C.CATEGORY_NOT_SPACE, C.CATEGORY_NOT_WORD)
    if cat in (C.CATEGORY_DIGIT, C.CATEGORY_NOT_DIGIT):
        r = ((48, 57),) if ascii_ else chartab.ranges('isdecimal', hi)
        f = T.in_ranges(n, r)
    elif cat in (C.CATEGORY_SPACE, C.CATEGORY_NOT_SPACE):
        r = ((9, 13), (32, 32)) if ascii_ else chartab.ranges('isspace', hi)
        f = T.in_ranges(n, r)
    elif cat in (C.CATEGORY_WORD, C.CATEGORY_NOT_WORD):
        if ascii_:
            f = T.in_ranges(n, ((48, 57), (65, 90), (95, 95), (97, 122)))
        else:
            f = T.or_(T.in_ranges(n, chartab.ranges('isalnum', hi)), T.eq(n, I(95)))
    else:
        raise Unsupported
    return T.not_(f) if neg else f


def in_set(items, c, flags):
    n = code_node(c)
    parts = []
    neg = False
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            parts.append(T.eq(n, I(av)))
        elif op is C.RANGE:
            parts.append(T.in_ranges(n, (av,)))
        elif op is C.CATEGORY:
            parts.append(category(av, c, flags))
        else:
            raise Unsupported
    f = T.or_(*parts)
    return T.not_(f) if neg else f


def step(seq, states, codes, flags):
    """states: {position: condition} -> states after matching seq."""
    for op, av in seq:
        out = {}

        def put(p, cond):
            if cond is not T.FALSE:
                out[p] = T.or_(out[p], cond) if p in out else cond

        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            if flags & re.IGNORECASE:
                raise Unsupported
            for p, cond in states.items():
                if p < len(codes):
                    c = codes[p]
                    if op is C.LITERAL:
                        f = T.eq(code_node(c), I(av))
                    elif op is C.NOT_LITERAL:
                        f = T.not_(T.eq(code_node(c), I(av)))
                    elif op is C.ANY:
                        f = T.TRUE if flags & re.DOTALL else T.not_(T.eq(code_node(c), I(10)))
                    else:
                        f = in_set(av, c, flags)
                    put(p + 1, T.and_(cond, f))
        elif op is C.AT:
            for p, cond in states.items():
                if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                    if flags & re.MULTILINE and av is C.AT_BEGINNING:
                        raise Unsupported
                    if p == 0:
                        put(p, cond)
                elif av is C.AT_END_STRING:
                    if p == len(codes):
                        put(p, cond)
                elif av is C.AT_END:
                    if flags & re.MULTILINE:
                        raise Unsupported
                    if p == len(codes):
                        put(p, cond)
                    elif p == len(codes) - 1:
                        put(p, T.and_(cond, T.eq(code_node(codes[p]), I(10))))
                else:
                    raise Unsupported
        elif op is C.SUBPATTERN:
            group, add, rem, sub = av
            if add or rem:
                raise Unsupported
            out = step(sub, states, codes, flags)
        elif op is C.BRANCH:
            for sub in av[1]:
                for p, cond in step(sub, states, codes, flags).items():
                    put(p, cond)
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            cur = states
            for _ in range(lo):
                cur = step(sub, cur, codes, flags)
            for p, cond in cur.items():
                put(p, cond)
            k = lo
            while cur and (hi is C.MAXREPEAT or k < hi) and k - lo <= len(codes):
                cur = step(sub, cur, codes, flags)
                k += 1
                for p, cond in cur.items():
                    put(p, cond)
        else:
            raise Unsupported
        states = out
    return states


def accepts(pattern, method, subject):
    tree = P.parse(pattern.pattern, pattern.flags)
    flags = tree.state.flags
    codes = subject._fix()
    start = {0: T.TRUE}
    if method == 'search':
        start = {i: T.TRUE for i in range(len(codes) + 1)}
    res = step(tree, start, codes, flags)
    if method == 'fullmatch':
        return res.get(len(codes), T.FALSE)
    return T.or_(*res.values())


def call(pattern, method, args, kw):
    from . import hooks
    if method in ('match', 'fullmatch', 'search') and len(args) == 1 and not kw \
            and type(args[0]) is SymStr and isinstance(pattern.pattern, str):
        try:
            f = accepts(pattern, method, args[0])
        except Unsupported:
            pass
        else:
            if E.CTX.decide(f):
                return SymMatch(pattern, method, args[0])
            return None
    if method in ('match', 'fullmatch', 'search', 'sub', 'split', 'findall', 'finditer', 'subn'):
        return getattr(pattern, method)(*[hooks.deep_realize(a) for a in args],
                                        **{k: hooks.deep_realize(v) for k, v in kw.items()})
    return getattr(pattern, method)(*args, **kw)
