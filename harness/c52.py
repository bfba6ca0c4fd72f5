"""C52: a parse error shows where in the text it is."""
import marsh
from marsh.parse import ParseError
from symx.base import Harness

PARSERS = {'override': marsh.parse.override, 'element': marsh.parse.element, 'mapping': marsh.parse.mapping,
           'sequence': marsh.parse.sequence, 'string': marsh.parse.string, 'terminal': marsh.parse.terminal,
           'names': marsh.parse.config_names}


def points_at(g, err, text, index):
    """The text is shown around the character at index, which the mark is below."""
    lines = str(err).split('\n')
    mark, shown = lines[-1], lines[-2]
    g.check(mark == ' ' * (len(mark) - 1) + '^', 'mark')
    at = len(mark) - 1
    g.check(at < len(shown), 'within the text')
    if at < len(shown):
        g.check(shown[at] == text[index], 'character')
        g.check(at < 80, 'in sight')
    # what is shown lies around that character
    dots = shown.startswith('... ')
    first = index - at + (4 if dots else 0)
    g.check(first >= 0, 'place')
    body = shown[4:] if dots else shown
    if body.endswith(' ...') and not text.endswith(body):
        body = body[:-4]
    g.check(text[first:first + len(body)] == body, 'the text itself is shown')
    g.check(dots or first == 0, 'what is left out is marked')


def around(g, fills, ends):
    before = g.choice('before', fills)
    return before, g.choice('after', ends)


def stopped(g, which, n, fills, ends, begin, end):
    """Whatever is wrong: what is left is the end of the text, and the mark is below its first character."""
    parser = PARSERS[which]
    before, after = around(g, fills, ends)
    middle = g.str('text', n, alphabet='ascii')
    for c in middle:
        g.assume(c != '\n')
    text = begin + 'a,' * before + middle + 'b' * after + end
    try:
        parser(text)
        g.cover('parsed')
    except ParseError as err:
        left = err.remaining
        g.check(text.endswith(left), 'the rest of the text')
        if left:
            g.cover('marked')
            points_at(g, err, text, len(text) - len(left))
        g.check(err.source == text, 'the whole text is known')


CLOSED = ('"x"', "'a b'", '[1, 2]', '{a: b}', '()')


def unexpected(g, where, fills, ends):
    """After a value that is complete, the first character that does not belong there is marked."""
    before, after = around(g, fills, ends)
    value = g.choice('value', CLOSED)
    space = g.choice('space', ('', ' ', '  \t'))
    c = g.str('c', 1, 1, alphabet='ascii')
    g.assume(g.Not(c.isspace()))
    filled = 'a,' * before
    if where == 'end':
        begin = value
        parser, follow = marsh.parse.element, ()
    elif where == 'sequence':
        begin = '[' + filled + value
        parser, follow = marsh.parse.element, (',', ']')
    elif where == 'mapping':
        begin = '{' + ''.join(f'k{i}:a,' for i in range(before)) + 'k: ' + value
        parser, follow = marsh.parse.element, (',', '}')
    elif where == 'key':
        begin = '{' + ''.join(f'k{i}:a,' for i in range(before)) + '"k"'
        parser, follow = marsh.parse.element, (':',)
    elif where == 'inner':
        begin = '{x: [' + filled + value
        parser, follow = marsh.parse.element, (',', ']')
    elif where == 'value':
        begin = 'p' * before + '=' + value
        parser, follow = marsh.parse.override, ()
    elif where == 'path':
        begin = '"p' + 'p' * before + '"'
        parser, follow = marsh.parse.override, ('=', '+', '@')
    else:
        begin = '@"n' + 'n' * before + '"'
        parser, follow = marsh.parse.override, (',',)
    for f in follow:
        g.assume(c != f)
    text = begin + space + c + 'b' * after
    try:
        parser(text)
        g.fail('accepted')
    except ParseError as err:
        g.check(err.remaining == c + 'b' * after, 'what is left')
        points_at(g, err, text, len(begin + space))


SHORT = (0, 1, 16, 17, 18)
LONG = (0, 1, 16, 17, 18, 19, 30, 33, 34, 35, 36, 60, 200)
ENDS = (0, 1, 80)
SURROUND = {'override': ('x=[', ']'), 'element': ('[', ']'), 'mapping': ('{k: [', ']}'), 'sequence': ('(', ')'), 'string': ('"', '"'),
            'terminal': ("'", "'"), 'names': ('[', ']')}
HARNESSES = [Harness(stopped, dict(which=w, n=2, fills=SHORT + (40,), ends=ENDS, begin=SURROUND[w][0], end=SURROUND[w][1]),
                     dict(which=w, n=3, fills=LONG, ends=ENDS + (30,), begin=SURROUND[w][0], end=SURROUND[w][1]), name='inside_' + w) for w in PARSERS]
HARNESSES += [Harness(stopped, dict(which=w, n=3, fills=(0,), ends=(0, 80), begin='', end=''), dict(which=w, n=4, fills=(0, 30), ends=(0, 80), begin='', end=''),
                      name='start_' + w) for w in PARSERS]
HARNESSES += [Harness(unexpected, dict(where=w, fills=SHORT + (40,), ends=ENDS), dict(where=w, fills=LONG, ends=ENDS + (30,)), name='after_' + w)
              for w in ('end', 'sequence', 'mapping', 'key', 'inner', 'value', 'path', 'names')]
