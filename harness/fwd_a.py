"""Types written with forward references; fwd_b has others of the same names."""
import dataclasses
from typing import Dict, List, NamedTuple, Optional, TypedDict


@dataclasses.dataclass
class Node:
    v: int
    rest: Optional['Node'] = None


@dataclasses.dataclass
class Direct:
    rest: 'Leaf'


@dataclasses.dataclass
class Many:
    items: List['Leaf']
    more: Optional[Dict[str, 'Leaf']] = None


class Tup(NamedTuple):
    items: List['Leaf']


class Dct(TypedDict):
    items: List['Leaf']


class Cls:
    def __init__(self, items: List['Leaf']):
        self.items = items

    def shown(self):
        return self.items


@dataclasses.dataclass
class Leaf:
    v: int
