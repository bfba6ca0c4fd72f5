"""C17: bytes survive being written as text."""
import marsh
from symx.base import Harness

U = marsh.utils


def round_trip(g, n):
    b = g.bytes('b', n)
    text = U.bytes_to_base64(b)
    g.check(type(text) is str, 'text')
    back = U.base64_to_bytes(text)
    g.check(g.same(back, b), 'same bytes')


def marshal(g, n):
    b = g.bytes('b', n)
    text = marsh.marshal(b)
    g.check(type(text) is str, 'text')
    g.check(g.same(marsh.unmarshal(bytes, text), b), 'same bytes')


def unpadded(g, n):
    """The padding is optional."""
    b = g.bytes('b', n)
    text = U.bytes_to_base64(b).rstrip('=')
    g.check(g.same(U.base64_to_bytes(text), b), 'same bytes')


def safe(g, n):
    """The text needs no escaping anywhere: letters, digits, '-', '_' and '='."""
    b = g.bytes('b', n)
    text = U.bytes_to_base64(b)
    g.check(len(text) == (len(b) + 2) // 3 * 4, 'length')
    for c in text:
        g.check(g.Or(g.And('a' <= c, c <= 'z'), g.And('A' <= c, c <= 'Z'), g.And('0' <= c, c <= '9'),
                     c == '-', c == '_', c == '='), 'alphabet')


def injective(g, n):
    a, b = g.bytes('a', n), g.bytes('b', n)
    g.assume(g.Not(g.same(a, b)))
    g.check(U.bytes_to_base64(a) != U.bytes_to_base64(b), 'distinct')


def nested(g, n):
    """In a mapping, as key and as value, and in a list."""
    b, k = g.bytes('b', n), g.bytes('k', 2)
    e = marsh.marshal({k: [b]})
    back = marsh.unmarshal(Nested, e)
    g.check(len(back) == 1, 'one key')
    for k2, v2 in back.items():
        g.check(g.same(k2, k), 'key')
        g.check(g.same(v2, [b]), 'value')


from typing import Dict, List  # noqa: E402

Nested = Dict[bytes, List[bytes]]

HARNESSES = [
    Harness(round_trip, dict(n=4), dict(n=6)),
    Harness(marshal, dict(n=4), dict(n=6)),
    Harness(unpadded, dict(n=4), dict(n=6)),
    Harness(safe, dict(n=6), dict(n=9)),
    Harness(injective, dict(n=4), dict(n=6)),
    Harness(nested, dict(n=4), dict(n=7)),
]
