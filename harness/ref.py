"""Independent reading of the documented unmarshaling rules.

A descriptor pairs a type with `ref(e)`, the value the documentation promises for
element e, or a refusal together with the fields leading to the offending value.
`gen` draws elements for a descriptor: fitting ones and every kind of misfit.
"""
import dataclasses
import typing
from typing import Any, Dict, List, Literal, Optional, Tuple, Union

import marsh
from harness import elements as R

NODEF = object()


class Refused(Exception):
    def __init__(self, fields=(), missing=False):
        super().__init__()
        self.fields = tuple(fields)
        self.missing = missing


def inside(field, d, e):
    try:
        return d.ref(e)
    except Refused as err:
        raise Refused((field,) + err.fields, err.missing) from None


def is_primitive(e):
    return isinstance(e, (bool, int, float, str))


TRUE = ('1', 'true', 'y', 'yes', 'on')
FALSE = ('0', 'false', 'n', 'no', 'off')


def prim(t, e):
    """e as primitive type t; ValueError when that would change the value."""
    if t is bool:
        if isinstance(e, bool):
            return e
        if isinstance(e, str):
            low = e.lower()
            for w in TRUE:
                if low == w:
                    return True
            for w in FALSE:
                if low == w:
                    return False
            raise ValueError
        if e == 1:
            return True
        if e == 0:
            return False
        raise ValueError
    if t is int:
        if isinstance(e, str):
            try:
                return int(e)
            except ValueError:
                e = float(e)
        if isinstance(e, float):
            if not e.is_integer():
                raise ValueError
        return int(e)
    if t is float:
        try:
            return float(e)
        except OverflowError:
            raise ValueError from None
    return str(e)


# --------------------------------------------------------------------------- descriptors
class Prim:
    def __init__(self, t):
        self.t = t

    def ref(self, e):
        if R.missing(e):
            raise Refused(missing=True)
        if not is_primitive(e):
            raise Refused()
        try:
            return prim(self.t, e)
        except ValueError:
            raise Refused() from None

    def gen(self, g, name, cfg):
        if cfg.get('leaf') == 'fit' or cfg.get('faults', 1) <= 0:
            kinds = ('fit',)
        elif cfg.get('leaf') == 'two':
            kinds = ('fit', 'map', 'missing', 'none')
        elif cfg.get('leaf') == 'bad':
            kinds = ('fit', 'none', 'missing', 'map', 'seq') + (('str',) if self.t is not str else ())
        else:
            kinds = ('int', 'str', 'bool', 'float', 'none', 'missing', 'map', 'seq')
        k = g.choice(name + '.leaf', kinds)
        if k == 'fit':
            k = self.t.__name__
        else:
            spend(cfg)
        if k == 'int':
            if self.t is str or self.t is bool or cfg.get('small'):
                return g.choice(name, (0, 1, 12, -3)[:cfg.get('ints', 4)])     # rendered in decimal
            return g.int(name)
        if k == 'str':
            s = g.str(name, cfg.get('strmax', 2), alphabet=cfg.get('alphabet', 'ascii'))
            return s
        if k == 'bool':
            return g.bool(name)
        if k == 'float':
            if self.t is str or self.t is bool or cfg.get('small'):
                return g.choice(name, (0.0, 1.5))
            return g.float(name, -1000, 1000)
        return {'none': None, 'missing': marsh.MISSING, 'map': {}, 'seq': ()}[k]


class NoneT:
    t = None

    def ref(self, e):
        if e is None or R.missing(e):
            return None
        raise Refused()

    def gen(self, g, name, cfg):
        if cfg.get('faults', 1) <= 0:
            return None
        return misfit(g, name, ('none', 'missing', 'int', 'str', 'map'))


class AnyT:
    t = Any

    def ref(self, e):
        if R.any_missing(e):
            raise Refused(missing=True)
        return e

    def gen(self, g, name, cfg):
        return misfit(g, name, ('none', 'missing', 'int', 'str', 'map', 'seq'))


def misfit(g, name, kinds):
    k = g.choice(name + '.kind', kinds)
    if k == 'int':
        return g.int(name, -99, 99)
    if k == 'str':
        return g.str(name, 2, alphabet='ascii')
    return {'none': None, 'missing': marsh.MISSING, 'map': {}, 'seq': ()}[k]


WRONG = ('none', 'missing', 'int', 'str')


def given(g, name, default, cfg):
    """Whether a named field is given; cfg['single'] makes leaving it out a fault."""
    if cfg.get('single') and default is NODEF:
        if cfg['faults'] <= 0:
            return True
        if g.choice(name + '.given', (True, False)):
            return True
        spend(cfg)
        return False
    return g.choice(name + '.given', (True, False))


def length(g, name, fields, cfg):
    opts = tuple(range(len(fields) + 2))
    if cfg.get('single'):
        def faults(n):
            return len([f for f in fields[n:] if f[-1] is NODEF]) + (n > len(fields))
        opts = tuple([n for n in opts if faults(n) <= cfg['faults']])
    n = g.choice(name + '.len', opts)
    if cfg.get('single'):
        for _ in range(faults(n)):
            spend(cfg)
    return n


def spend(cfg):
    """cfg['faults'] bounds how many misfits one element holds."""
    if 'faults' in cfg:
        cfg['faults'] -= 1


def shape(g, name, cfg, good, wrong=WRONG):
    """Choose the shape of a container element: (kind, element or None)."""
    good = (good,) if isinstance(good, str) else tuple(good)
    if cfg.get('wrong', True) and cfg.get('faults', 1) > 0:
        k = g.choice(name + '.shape', good + wrong)
    else:
        k = g.choice(name + '.shape', good)
    if k in wrong:
        spend(cfg)
        return k, misfit(g, name, (k,))
    return k, None


class Seq:
    """Homogeneous sequence; `make` is the container the type promises."""

    def __init__(self, item, t=None, make=list):
        self.item = item
        self.t = List[item.t] if t is None else t
        self.make = make

    def ref(self, e):
        if R.missing(e):
            return self.make([])
        if not R.is_seq(e):
            raise Refused()
        return self.make([inside(str(i), self.item, x) for i, x in enumerate(e)])

    def gen(self, g, name, cfg):
        k, e = shape(g, name, cfg, 'seq', WRONG + ('map',))
        if k != 'seq':
            return e
        n = g.choice(name + '.len', tuple(range(cfg.get('width', 2) + 1)))
        items = [self.item.gen(g, f'{name}.{i}', cfg) for i in range(n)]
        return tuple(items) if cfg.get('tuples') and g.choice(name + '.tuple', (False, True)) else items


class Map:
    def __init__(self, key, value, t=None):
        self.key, self.value = key, value
        self.t = Dict[key.t, value.t] if t is None else t

    def ref(self, e):
        if R.missing(e):
            return {}
        if not R.is_map(e):
            raise Refused()
        out = {}
        for k, v in e.items():
            f = str(k)
            key = inside(f, self.key, k)
            out[key] = inside(f, self.value, v)
        return out

    def gen(self, g, name, cfg):
        k, e = shape(g, name, cfg, 'map', WRONG + ('seq',))
        if k != 'map':
            return e
        n = g.choice(name + '.len', tuple(range(cfg.get('width', 2) + 1)))
        keys = []
        for i in range(n):
            if self.key.t is int:
                key = g.choice(f'{name}.k{i}', ('1', '+2', '030', 'x') if cfg.get('faults', 1) > 0 else ('1', '+2', '030'))
                if key == 'x':
                    spend(cfg)
            elif self.key.t is bool:
                key = g.choice(f'{name}.k{i}', ('True', 'no'))
            else:
                key = g.str(f'{name}.k{i}', cfg.get('keymax', 2), cfg.get('keymin', 1),
                            alphabet=cfg.get('key_alphabet', 'ascii'))
            for o in keys:
                g.assume(g.Not(key == o))
            keys.append(key)
        return dict([(key, self.value.gen(g, f'{name}.{i}', cfg)) for i, key in enumerate(keys)])


class Opt:
    def __init__(self, inner):
        self.inner = inner
        self.t = Optional[inner.t]

    def ref(self, e):
        try:
            return self.inner.ref(e)
        except Refused:
            if e is None or R.missing(e):
                return None
            raise

    def gen(self, g, name, cfg):
        if g.choice(name + '.opt', ('none', 'inner')) == 'none':
            return None
        return self.inner.gen(g, name, cfg)


class Un:
    def __init__(self, *members):
        self.members = members
        self.t = Union[tuple(m.t for m in members)]

    def ref(self, e):
        for m in self.members:
            try:
                return m.ref(e)
            except Refused:
                pass
        raise Refused(missing=R.missing(e))

    def gen(self, g, name, cfg):
        i = g.choice(name + '.member', tuple(range(len(self.members))))
        return self.members[i].gen(g, name, cfg)


def one_of(g, name, cfg, values):
    """A fitting value, or anything."""
    k = g.choice(name + '.lit', ('fit', 'str', 'int', 'none', 'missing', 'map')
                 if cfg.get('faults', 1) > 0 else ('fit',))
    if k == 'fit':
        return g.choice(name, values)
    spend(cfg)
    if k == 'str':
        return g.str(name, cfg.get('strmax', 2), alphabet='ascii')
    if k == 'int':
        return g.choice(name, (0, 1, 2, 99))
    return {'none': None, 'missing': marsh.MISSING, 'map': {}}[k]


class Lit:
    def __init__(self, *values):
        self.values = values
        self.t = Literal[values]

    def ref(self, e):
        for v in self.values:
            if v is None:
                if e is None or R.missing(e):
                    return None
                continue
            if R.missing(e) or not is_primitive(e):
                continue
            try:
                if prim(type(v), e) == v:
                    return v
            except ValueError:
                pass
        raise Refused()

    def gen(self, g, name, cfg):
        return one_of(g, name, cfg, self.values)


class Rec:
    """Named fields: dataclass, named tuple, typed dict, class or fixed tuple."""

    def __init__(self, t, fields, build):
        self.t = t
        self.fields = fields              # (name, descriptor, default factory or NODEF)
        self.build = build                # values by name -> value

    def field(self, name, d, default, e):
        if R.missing(e) and default is not NODEF:
            return default()
        return inside(name, d, e)

    def ref(self, e):
        if R.missing(e):
            e = {}
        vals = {}
        if R.is_map(e):
            left = []
            for k in e:
                known = False
                for name, _, _ in self.fields:
                    if k == name:
                        known = True
                        break
                if not known:
                    left.append(k)
            for name, d, default in self.fields:
                ok, v = R.find(e, name)
                vals[name] = self.field(name, d, default, v if ok else marsh.MISSING)
        elif R.is_seq(e):
            left = e[len(self.fields):]
            for i, (name, d, default) in enumerate(self.fields):
                vals[name] = self.field(name, d, default, e[i] if i < len(e) else marsh.MISSING)
        else:
            raise Refused()
        if len(left):
            raise Refused()
        return self.build(vals)

    def gen(self, g, name, cfg):
        k, e = shape(g, name, cfg, cfg.get('rec', ('map', 'seq')))
        if k == 'map':
            out = []
            for f, d, default in self.fields:
                if given(g, f'{name}.{f}', default, cfg):
                    out.append((f, d.gen(g, f'{name}.{f}', cfg)))
            if cfg.get('extra', True) and cfg.get('faults', 1) > 0 and g.choice(name + '.extra', (False, True)):
                spend(cfg)
                key = g.str(name + '.key', cfg.get('keymax', 2), alphabet='ascii')
                for f, _ in out:
                    g.assume(g.Not(key == f))
                out.append((key, g.int(name + '.extra', -99, 99)))
            if len(out) > 1 and cfg.get('order', True) and g.choice(name + '.order', (False, True)):
                out.reverse()
            return dict(out)
        if k == 'seq':
            n = length(g, name, self.fields, cfg)
            items = []
            for i in range(n):
                if i < len(self.fields):
                    f, d, _ = self.fields[i]
                    items.append(d.gen(g, f'{name}.{f}', cfg))
                else:
                    items.append(g.int(f'{name}.over'))
            return items
        return e


def fixed(*items):
    """Tuple[a, b, ...]"""
    return Rec(Tuple[tuple(d.t for d in items)],
               [(str(i), d, NODEF) for i, d in enumerate(items)],
               lambda vals: tuple(vals.values()))


class Sig:
    """A callable with parameters of every kind; `params` is (kind, name, descriptor, default).

    kind: 'pos' by position or keyword, 'only' position only, 'kw' keyword only, 'args', 'kwargs'.
    """

    def __init__(self, fn, *params):
        self.t = self.fn = fn
        self.params = params

    def run(self, e):
        try:
            a = marsh.unmarshal_args(self.fn, e)
        except marsh.errors.MarshError as err:
            return 'no', err
        return 'ok', self.fn(*a.args, **a.kwargs)

    def ref(self, e):
        if R.missing(e):
            e = {}
        items, left = [], []
        if R.is_map(e):
            left = list(e.items())
        elif R.is_seq(e):
            items = list(e)
        else:
            raise Refused()
        out = []
        for kind, name, d, default in self.params:
            if kind == 'args':
                out.append([inside(name, Thunk(None, lambda: Numbered(i, d)), x) for i, x in enumerate(items)])
                items = []
            elif kind == 'kwargs':
                out.append([(k, inside(name, Thunk(None, lambda: Numbered(k, d)), x)) for k, x in left])
                left = []
            else:
                x = marsh.MISSING
                if items:
                    x = items.pop(0)
                else:
                    for i, (k, y) in enumerate(left):
                        if k == name:
                            x = y
                            del left[i]
                            break
                if R.missing(x) and default is not NODEF:
                    out.append(default)
                else:
                    out.append(inside(name, d, x))
        if items or left:
            raise Refused()
        return out

    def gen(self, g, name, cfg):
        k, e = shape(g, name, cfg, cfg.get('rec', ('map', 'seq')))
        named = [p for p in self.params if p[0] not in ('args', 'kwargs')]
        if k == 'map':
            out = []
            for _, f, d, default in named:
                if given(g, f'{name}.{f}', default, cfg):
                    out.append((f, d.gen(g, f'{name}.{f}', cfg)))
            more = cfg.get('extra', 1)
            closed = self.params[-1][0] != 'kwargs'
            if cfg.get('single') and closed:
                more = min(more, cfg['faults'])
            for i in range(g.choice(name + '.extra', tuple(range(1 + more)))):
                if closed:
                    spend(cfg)
                key = g.str(f'{name}.key{i}', cfg.get('keymax', 2), cfg.get('keymin', 1), alphabet='ascii')
                for f, _ in out:
                    g.assume(g.Not(key == f))
                out.append((key, self.params[-1][2].gen(g, f'{name}.extra{i}', cfg)))
            if len(out) > 1 and g.choice(name + '.order', (False, True)):
                out.reverse()
            return dict(out)
        if k == 'seq':
            if 'args' in [p[0] for p in self.params]:
                named = named[:-1]          # the last one is keyword only
                most = len(named) + 2
            else:
                most = len(named)
            n = length(g, name, named, cfg) if most == len(named) else g.choice(
                name + '.len', tuple(range(0 if not cfg.get('single') else len(
                    [p for p in named if p[3] is NODEF]), most + 1)))
            return [named[min(i, len(named) - 1)][2].gen(g, f'{name}.{i}', cfg) for i in range(n)]
        return e


class Numbered:
    def __init__(self, field, d):
        self.field, self.d = field, d

    def ref(self, e):
        return inside(str(self.field), self.d, e)


class En:
    def __init__(self, t):
        self.t = t

    def ref(self, e):
        if R.missing(e):
            raise Refused(missing=True)
        if not is_primitive(e):
            raise Refused()
        if isinstance(e, str):
            for name, m in self.t.__members__.items():
                if e == name:
                    return m
        for m in self.t:
            for v in (m.name, m.value):
                if isinstance(v, (bool, int, float, str)):
                    try:
                        if prim(type(v), e) == v:
                            return m
                    except ValueError:
                        pass
        raise Refused()

    def gen(self, g, name, cfg):
        return one_of(g, name, cfg, tuple(self.t.__members__))


class Ann:
    """An annotated type: `pre` functions on the element, `bad` refusals, `post` functions on the value."""

    def __init__(self, inner, *validators, bad=(), pre=(), post=()):
        self.inner, self.bad, self.pre, self.post = inner, bad, pre, post
        self.t = typing.Annotated[(inner.t,) + validators]

    def ref(self, e):
        for f in self.pre:
            e = f(e)
        v = self.inner.ref(e)
        for b in self.bad:
            if b(v):
                raise Refused()
        for f in self.post:
            v = f(v)
        return v

    def gen(self, g, name, cfg):
        return self.inner.gen(g, name, cfg)


class Thunk:
    """Reference to a descriptor defined later (recursive types)."""

    def __init__(self, t, get):
        self.t, self.get = t, get

    def ref(self, e):
        return self.get().ref(e)

    def gen(self, g, name, cfg):
        return self.get().gen(g, name, cfg)


def view(v):
    """Values as comparable structures with their classes spelled out."""
    if dataclasses.is_dataclass(v) and not isinstance(v, type):
        return (type(v), [view(getattr(v, f.name)) for f in dataclasses.fields(v)])
    if isinstance(v, tuple) and hasattr(v, '_fields'):
        return (type(v), [view(x) for x in v])
    if isinstance(v, dict):
        return dict([(k, view(x)) for k, x in v.items()])
    if type(v) is list:
        return [view(x) for x in v]
    if type(v) is tuple:
        return tuple([view(x) for x in v])
    if hasattr(v, 'shown'):
        return (type(v), view(v.shown()))
    return v


def run(t, e):
    """('ok', value) or ('no', error)."""
    try:
        return 'ok', marsh.unmarshal(t, e)
    except marsh.errors.MarshError as err:
        return 'no', err


def expect(d, e):
    try:
        return 'ok', d.ref(e)
    except Refused as err:
        return 'no', err


def agree(g, d, e, path=False):
    """The real result is the documented one."""
    want = expect(d, e)
    got = d.run(e) if hasattr(d, 'run') else run(d.t, e)
    g.cover(want[0])
    if got[0] != want[0]:
        g.check(False, 'accepted' if got[0] == 'ok' else 'refused')
        return None
    if got[0] == 'no':
        g.check(isinstance(got[1], marsh.errors.UnmarshalError), 'unmarshal error')
        if path:
            g.check(g.same(tuple(marsh.path.split(got[1].path)),
                           tuple([f for f in want[1].fields if f])), 'path')
        return None
    g.observe('got', view(got[1]))
    g.check(g.same(view(got[1]), view(want[1])), 'value')
    return (got[1],)
