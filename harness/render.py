"""Writes elements in the documented command line syntax (the inverse of marsh.parse)."""


def escape(s, special):
    out = []
    for c in s:
        if c in special:
            out.append('\\')
        out.append(c)
    return ''.join(out)


def quoted(s, q='"'):
    return q + escape(s, q + '\\') + q


def bare(s):
    """Unquoted, every character escaped: never reserved, never stripped."""
    out = []
    for c in s:
        out.append('\\')
        out.append(c)
    return ''.join(out)


def after(e, style):
    """Whitespace may follow quotes and brackets; after a bare word it would belong to the word."""
    return style['space'] if isinstance(e, (str, dict, list, tuple)) else ''


def render(e, style):
    """style: dict(seq='[]' or '()', space=str, q=quote)."""
    sp = style['space']
    if isinstance(e, dict):
        return '{' + sp + (',' + sp).join(
            [quoted(k, style['q']) + sp + ':' + sp + render(v, style) + after(v, style)
             for k, v in e.items()]) + '}'
    if isinstance(e, (list, tuple)):
        o, c = style['seq']
        return o + sp + (',' + sp).join([render(v, style) + after(v, style) for v in e]) + c
    if isinstance(e, str):
        return quoted(e, style['q'])
    if e is None:
        return 'null'
    if e is True:
        return 'true'
    if e is False:
        return 'false'
    return str(e)
