"""Self-test of the engine: a false claim about marsh that only a rare input refutes."""
import marsh
from symx.base import Harness


def wrong(g, n):
    path = g.str('path', n)
    g.assume(g.And(*[g.Not(c in path) for c in '"\'\\']))
    fields = marsh.path.split(path)
    g.check(len(fields) < 2 or fields[1] != '\u03b2z', 'no second field is \u03b2z')


HARNESSES = [Harness(wrong, dict(n=5))]
