"""C22: an error names the path of the value that is wrong."""
import marsh
from symx.base import Harness
from harness import ref as F
from harness import types_pool as T

I, S = T.INT, T.STR
POOL = {
    'seq_seq': F.Seq(F.Seq(I)),
    'map_seq': F.Map(S, F.Seq(I)),
    'map_int': F.Map(I, T.BOOL),
    'map_bool': F.Map(T.BOOL, I), 'map_map': F.Map(I, F.Map(T.BOOL, F.Seq(T.BOOL))),
    'map_point': F.Map(S, T.POINT),
    'outer': T.OUTER,
    'sized': T.SIZED,
    'pair': T.PAIR,
    'full': F.Seq(T.FULL),
    'part': T.PART,
    'plain': F.Map(S, T.PLAIN),
    'fixed': F.fixed(I, T.POINT),
    'keyed': T.KEYED,
    'given': T.GIVEN,
    'optional': F.Opt(F.Seq(F.Opt(I))),
    'union': F.Seq(F.Un(I, F.Seq(I))),
    'enum': F.Map(S, T.COLOR),
    'literal': F.Seq(F.Lit('a', 2)),
    'positive': F.Map(S, F.Seq(T.POSITIVE)),
    'populated': F.Seq(T.POPULATED),
}


def located(g, which, **cfg):
    """One misfit anywhere: the error's path leads to it, whatever the keys look like."""
    d = POOL[which]
    F.agree(g, d, d.gen(g, 'e', dict(cfg, single=True)), path=True)


def arguments(g, which, **cfg):
    d = T.SIGS[which]
    F.agree(g, d, d.gen(g, 'e', dict(cfg, single=True)), path=True)


CFG = dict(leaf='bad', width=2, faults=1, keymax=2)
DEEP = dict(leaf='bad', width=2, faults=1, keymax=4, key_alphabet='uni')
NARROW = {'map_map': dict(width=1)}
HARNESSES = [Harness(located, dict(CFG, which=w, **NARROW.get(w, {})), dict(DEEP, which=w, **NARROW.get(w, {})), name=w) for w in POOL]
HARNESSES += [Harness(arguments, dict(CFG, which=w), dict(DEEP, which=w), name='arguments_' + w) for w in T.SIGS]
