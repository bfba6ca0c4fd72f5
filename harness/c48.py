"""C48: the generated reference lists every documented schema once, in order, in well formed markup."""
import marsh
from marsh.doc import markdown, restructuredtext
from marsh.schema.core import Schema, SchemaRegistry
from symx.base import Harness

SECTIONS = ('#', '*', '=', '-', '^', '"')
SECTION_TEXT = {'#': 2, '*': 2, '=': 1, '-': 1, '^': 1, '"': 1}


def line(g, name, n):
    """A text of one line."""
    t = g.str(name, n)
    g.assume('\n' not in t)
    return t


def schema(g, i, n):
    """A schema with a type, without one, or without documentation at all."""
    kind = g.choice(f'kind{i}', ('both', 'type', 'empty', 'none'))
    if kind == 'none':
        class Undocumented(Schema):
            pass
        return Undocumented, None, None
    name = line(g, f'type{i}', n) if kind != 'empty' else ''
    text = g.str(f'text{i}', n) if kind == 'both' else None

    class Documented(Schema):
        @staticmethod
        def doc_static_type():
            return name

        @staticmethod
        def doc_static_description():
            return text
    return Documented, name, text


def sources(g, n, count):
    """(source, the names and descriptions to be listed)"""
    made = [schema(g, i, n) for i in range(g.choice('count', tuple(range(count + 1))))]
    how = g.choice('source', ('list', 'iterator', 'registry', 'schemas', 'last first'))
    order = list(made)
    if how == 'list':
        source = [s for s, _, _ in made]
    elif how == 'iterator':
        source = iter([s for s, _, _ in made])
    else:
        registry = SchemaRegistry()
        for i in range(len(made)):
            registry.register(made[i][0], priority=-i if how != 'last first' else i)
        if how == 'last first':
            order.reverse()
        source = registry
        if how == 'schemas':
            class Family(Schema):
                pass
            Family.registry = registry
            source = Family
    return source, [(name, text or '') for _, name, text in order if name]


def agrees(g, got, want, label):
    g.check(g.same(got, want), label)


def as_markdown(g, n, count):
    source, want = sources(g, n, count)
    level = g.choice('level', (None, 1, 4))
    got = markdown.format_types(source) if level is None else markdown.format_types(source, heading=level)
    parts = ['#' * (level or 3) + ' ' + name + '\n' + text for name, text in want]
    agrees(g, got, '\n\n'.join(parts), 'sections')


def as_sections(g, n, count):
    source, want = sources(g, n, count)
    mark = g.choice('mark', (None,) + SECTIONS)
    got = restructuredtext.format_types(source) if mark is None else restructuredtext.format_types(source, section=mark)
    parts = []
    for name, text in want:
        rule = (mark or '^') * len(name)
        parts.append((rule + '\n' if mark is not None and SECTION_TEXT[mark] == 2 else '') + name + '\n' + rule + '\n\n' + text)
    agrees(g, got, '\n\n'.join(parts), 'sections')


def cells(g, got, title, widths, rows, shown=None):
    """The table as it has to be written: a cell never ends its line."""
    head, _, body = got.partition('\n\n')
    want = '.. list-table::' + (' ' + title if title else '') + '\n    :header-rows: 1'
    if widths:
        want += '\n    :widths: ' + ', '.join([str(w) for w in widths])
    g.check(g.same(head, want), 'head')
    g.check(body.endswith('\n'), 'last line')
    lines = body[:-1].split('\n')
    flat = [(i, c) for row in rows for i, c in enumerate(row)]
    g.check(len(lines) == len(flat), 'lines')
    for text, (i, c) in zip(lines, flat):
        start = '    * - ' if i == 0 else '      - '
        g.check(g.same(text, start + c.replace('\n', ' ')), 'cell')


def as_table(g, n, count):
    source, want = sources(g, n, count)
    title = line(g, 'title', n) if g.choice('titled', (True, False)) else None
    got = restructuredtext.format_types_table(source, title=title) if title is not None else restructuredtext.format_types_table(source)
    cells(g, got, title, (30, 50), [('Type', 'Description')] + want)


def any_table(g, n, wide, rows):
    """Tables of any texts and numbers."""
    columns = g.choice('columns', tuple(range(1, wide + 1)))
    count = g.choice('rows', tuple(range(rows + 1)))
    numbers = g.choice('numbers', (False, True))
    headers = [g.str(f'h{i}', n) for i in range(columns)]
    body = [[g.choice(f'c{r}.{i}', (0, -7, 1.5, None)) if numbers and i == 0 else g.str(f'c{r}.{i}', n) for i in range(columns)] for r in range(count)]
    widths = g.choice('widths', (None, [10, 20, 30][:columns]))
    title = line(g, 'title', n) if g.choice('titled', (False, True)) else None
    source = iter(body) if g.choice('iterator', (False, True)) else [tuple(r) for r in body]
    got = restructuredtext.format_table(tuple(headers), source, title=title, widths=widths)
    cells(g, got, title, widths, [headers] + [[c if isinstance(c, str) else str(c) for c in r] for r in body])


FAMILIES = (marsh.schema.MarshalSchema, marsh.schema.UnmarshalSchema, marsh.config.ConfigSchema)


def builtin(g):
    """The schemas of marsh itself."""
    family = g.choice('family', FAMILIES)
    source = g.choice('source', (family, family.registry))
    names = [s.doc_static_type() for s in family.registry if s.doc_static_type()]
    where = g.choice('format', ('markdown', 'sections', 'table'))
    if where == 'markdown':
        got = [x[4:] for x in markdown.format_types(source).split('\n') if x.startswith('### ')]
    elif where == 'table':
        got = [x[8:] for x in restructuredtext.format_types_table(source).split('\n') if x.startswith('    * - ')][1:]
    else:
        lines = restructuredtext.format_types(source).split('\n')
        got = [a for a, b in zip(lines, lines[1:]) if b and not b.strip('^')]
        for a, b in zip(lines, lines[1:]):
            g.check(bool(b.strip('^')) or not b or len(a) == len(b), 'underline')
    g.check(got == names, 'listed')
    g.check(len(names) > 10 or family is marsh.config.ConfigSchema, 'documented')


HARNESSES = [
    Harness(as_markdown, dict(n=2, count=2), dict(n=3, count=3)),
    Harness(as_sections, dict(n=2, count=2), dict(n=3, count=3)),
    Harness(as_table, dict(n=1, count=2), dict(n=2, count=3)),
    Harness(any_table, dict(n=1, wide=2, rows=1), dict(n=2, wide=3, rows=2)),
    Harness(any_table, dict(n=3, wide=1, rows=1), dict(n=4, wide=1, rows=1), name='long_cells'),
    Harness(builtin),
]
