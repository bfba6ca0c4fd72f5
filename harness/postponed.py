"""Types whose hints are strings."""
from __future__ import annotations

import dataclasses
from typing import Annotated, List, NamedTuple, TypedDict

from marsh.annotation import Negative, Populated, Positive, Unsigned


@dataclasses.dataclass
class Data:
    n: Annotated[int, Positive]
    s: Annotated[List[int], Populated] = dataclasses.field(default_factory=lambda: [1])


class Tup(NamedTuple):
    n: Annotated[int, Positive]
    m: Annotated[float, Negative] = -1.0


class Dct(TypedDict):
    n: Annotated[int, Unsigned]


class Lax(TypedDict, total=False):
    n: Annotated[int, Positive]
    m: Annotated[int, Unsigned]


class Cls:
    def __init__(self, n: Annotated[int, Positive], m: Annotated[int, Unsigned()] = 0):
        self.n, self.m = n, m

    def shown(self):
        return [self.n, self.m]


def fn(n: Annotated[int, Positive], *rest: Annotated[int, Unsigned], k: Annotated[int, Positive] = 1,
       **kw: Annotated[int, Unsigned]):
    return [n, list(rest), k, list(kw.items())]
